From 95ffe8538cf24d3157e7105b8f4194b82788dec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 01/44] fix: release the CDP session and page markers when the
 source image for replaced elements cannot be read

---
 src/capture/index.ts | 87 ++++++++++++++++++++++----------------------
 1 file changed, 43 insertions(+), 44 deletions(-)

diff --git a/src/capture/index.ts b/src/capture/index.ts
index f53a4ae..ca73753 100644
--- a/src/capture/index.ts
+++ b/src/capture/index.ts
@@ -2272,55 +2272,54 @@ async function rasterizeReplacedElements(
   // typical replaced elements (iframe / canvas / video / custom-element with
   // shadow DOM) the rid's content-box rect doesn't overlap with siblings, so
   // the loss of CSS-trick isolation is a no-op visually.
-  if (cropTargets.length > 0 && opts?.sourceImagePath != null) {
-    const sharp = (await import("sharp")).default;
-    const srcMeta = await sharp(opts.sourceImagePath).metadata();
-    const sourceSize = { width: srcMeta.width ?? 0, height: srcMeta.height ?? 0 };
-    for (const target of cropTargets) {
-      try {
-        const contentQuad = await boxQuad(target);
-        const bounds = contentQuad == null ? null : axisAlignedQuadBounds(contentQuad);
-        if (contentQuad == null || bounds == null) {
-          screenshotTargets.push(target);
-          continue;
-        }
-        const mapped = mapCssRectToSourcePixels({
-          x: bounds.x - viewport.x,
-          y: bounds.y - viewport.y,
-          width: bounds.width,
-          height: bounds.height,
-        }, viewport, sourceSize);
-        if (mapped == null) {
+  // The markers, the CDP session and (below) the hide stylesheet are all
+  // released in the finally, however this pass ends — including when the
+  // supplied source image cannot be read.
+  let styleHandle: ElementHandle | null = null;
+  try {
+    if (cropTargets.length > 0 && opts?.sourceImagePath != null) {
+      const sharp = (await import("sharp")).default;
+      const srcMeta = await sharp(opts.sourceImagePath).metadata();
+      const sourceSize = { width: srcMeta.width ?? 0, height: srcMeta.height ?? 0 };
+      for (const target of cropTargets) {
+        try {
+          const contentQuad = await boxQuad(target);
+          const bounds = contentQuad == null ? null : axisAlignedQuadBounds(contentQuad);
+          if (contentQuad == null || bounds == null) {
+            screenshotTargets.push(target);
+            continue;
+          }
+          const mapped = mapCssRectToSourcePixels({
+            x: bounds.x - viewport.x,
+            y: bounds.y - viewport.y,
+            width: bounds.width,
+            height: bounds.height,
+          }, viewport, sourceSize);
+          if (mapped == null) {
+            screenshotTargets.push(target);
+            continue;
+          }
+          const buf = await sharp(opts.sourceImagePath)
+            .extract(mapped.crop)
+            .png()
+            .toBuffer();
+          installRaster(
+            target,
+            `data:image/png;base64,${buf.toString("base64")}`,
+            mapped.output,
+            contentQuad,
+            mapped.crop.width,
+            mapped.crop.height,
+          );
+        } catch {
           screenshotTargets.push(target);
-          continue;
         }
-        const buf = await sharp(opts.sourceImagePath)
-          .extract(mapped.crop)
-          .png()
-          .toBuffer();
-        installRaster(
-          target,
-          `data:image/png;base64,${buf.toString("base64")}`,
-          mapped.output,
-          contentQuad,
-          mapped.crop.width,
-          mapped.crop.height,
-        );
-      } catch {
-        screenshotTargets.push(target);
       }
     }
-  }
-  if (screenshotTargets.length === 0) {
-    await cdp?.detach().catch(() => undefined);
-    await cleanupMarkers();
-    return;
-  }
+    if (screenshotTargets.length === 0) return;
 
-  // Inject the hide-everything-else stylesheet (shared SNAPSHOT_HIDE_CSS);
-  // restored unconditionally in finally.
-  let styleHandle: ElementHandle | null = null;
-  try {
+    // Inject the hide-everything-else stylesheet (shared SNAPSHOT_HIDE_CSS);
+    // restored unconditionally in finally.
     styleHandle = await page.addStyleTag({ content: SNAPSHOT_HIDE_CSS });
     for (const target of screenshotTargets) {
       let prepared = false;
-- 
2.43.0


From 55cca25c01ae929b136c88c2ad0a7380de14d2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:05 +0000
Subject: [PATCH 02/44] fix: close the template renderer's browser when its
 work directory cannot be created or removed

---
 src/templates/render.ts | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/templates/render.ts b/src/templates/render.ts
index bd5202a..1c56254 100644
--- a/src/templates/render.ts
+++ b/src/templates/render.ts
@@ -112,10 +112,10 @@ export async function renderTemplateToSvg<P>(
 ): Promise<TemplateOutput> {
   const params = validateTemplateParams(template, applyBrandDefaults(template, rawParams, opts.brand));
   const log = opts.log ?? ((): void => {});
-  const ownsBrowser = opts.browser == null;
-  const browser = opts.browser ?? (await launchChromium());
   const workDir = mkdtempSync(join(tmpdir(), `domotion-tmpl-${template.name}-`));
+  let ownedBrowser: Browser | null = null;
   try {
+    const browser = opts.browser ?? (ownedBrowser = await launchChromium());
     const ctx: TemplateRenderContext = {
       browser,
       workDir,
@@ -127,7 +127,10 @@ export async function renderTemplateToSvg<P>(
     };
     return await template.render(params, ctx);
   } finally {
-    rmSync(workDir, { recursive: true, force: true });
-    if (ownsBrowser) await browser.close();
+    try {
+      rmSync(workDir, { recursive: true, force: true });
+    } finally {
+      await ownedBrowser?.close();
+    }
   }
 }
-- 
2.43.0


From af3151fd5ea266b0248a88ffc752cb679df84274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:05 +0000
Subject: [PATCH 03/44] fix: close the animate capture context when brand
 injection fails

---
 src/cli/animate.ts | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cli/animate.ts b/src/cli/animate.ts
index c0833ce..dfddb82 100644
--- a/src/cli/animate.ts
+++ b/src/cli/animate.ts
@@ -2853,13 +2853,13 @@ export async function composeAnimateFrames(
     ...(cfg.mobile === true ? { userAgent: "Mozilla/5.0 (iPhone; CPU iPhone OS 17_0 like Mac OS X)" } : {}),
     ...(cfg.colorScheme != null ? { colorScheme: cfg.colorScheme } : {}),
   });
-  // DM-1540 (docs/92): inject the brand's CSS custom properties onto every
-  // captured frame's `:root` before it paints. On the context, so it applies to
-  // each frame's navigation. Template/cast frames render before this loop and
-  // carry their own theming (template frames via their brand defaults, DM-1543).
-  // `runBrand` is `--brand` or the config's `brand` key (DM-1544).
-  if (runBrand != null) await injectBrandVariables(ctx, runBrand);
   try {
+    // DM-1540 (docs/92): inject the brand's CSS custom properties onto every
+    // captured frame's `:root` before it paints. On the context, so it applies to
+    // each frame's navigation. Template/cast frames render before this loop and
+    // carry their own theming (template frames via their brand defaults, DM-1543).
+    // `runBrand` is `--brand` or the config's `brand` key (DM-1544).
+    if (runBrand != null) await injectBrandVariables(ctx, runBrand);
     const page = await ctx.newPage();
     // DM-479: 90 s instead of Playwright's 30 s default.
     page.setDefaultTimeout(90_000);
-- 
2.43.0


From 071278715adb42bd39851b9cade2bbd9e1d70559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:05 +0000
Subject: [PATCH 04/44] fix: detach the forced-state CDP session when it cannot
 be enabled

---
 src/cli/animate.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cli/animate.ts b/src/cli/animate.ts
index dfddb82..4dd4d65 100644
--- a/src/cli/animate.ts
+++ b/src/cli/animate.ts
@@ -3177,8 +3177,13 @@ async function getForcedStateSession(page: Page): Promise<ForcedStateSession> {
   let entry = forcedStateSessions.get(page);
   if (entry == null) {
     const session = await page.context().newCDPSession(page);
-    await session.send("DOM.enable");
-    await session.send("CSS.enable");
+    try {
+      await session.send("DOM.enable");
+      await session.send("CSS.enable");
+    } catch (error) {
+      await session.detach().catch(() => undefined);
+      throw error;
+    }
     const created: ForcedStateSession = { session, rootNodeId: null };
     forcedStateSessions.set(page, created);
     // A reload frame navigates the SAME page object; its new document invalidates
-- 
2.43.0


From b8dc9e8b43763941e8645a71912a8d4e0ada3652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:29 +0000
Subject: [PATCH 05/44] fix: close the rasterising context when svg-review
 cannot load or size the actual SVG

---
 src/cli/review.ts | 50 +++++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/cli/review.ts b/src/cli/review.ts
index 9b7c2ec..053600e 100644
--- a/src/cli/review.ts
+++ b/src/cli/review.ts
@@ -86,33 +86,33 @@ function parseFlags(argv: string[]): ReviewFlags | { help: true } {
 async function rasteriseSvg(browser: Browser, svgPath: string, outPng: string): Promise<{ width: number; height: number }> {
   if (!existsSync(svgPath)) throw new Error(`svg-review: actual SVG not found: ${svgPath}`);
   const ctx = await browser.newContext({ viewport: { width: 1024, height: 768 }, deviceScaleFactor: 1 });
-  const page = await ctx.newPage();
-  // Load the SVG inside a minimal HTML host so Chromium uses its native
-  // SVG renderer (matches what consumers' browsers paint when the SVG is
-  // embedded as <img> / inline). Resolve width/height from the SVG's
-  // viewBox or width/height attributes so the screenshot rect matches.
-  await page.goto(pathToFileURL(svgPath).href);
-  const dims = await page.evaluate(() => {
-    const svg = document.querySelector("svg");
-    if (svg == null) return null;
-    const vb = svg.getAttribute("viewBox");
-    if (vb != null) {
-      const parts = vb.split(/\s+/).map(Number);
-      if (parts.length === 4) return { width: parts[2]!, height: parts[3]! };
-    }
-    const w = parseFloat(svg.getAttribute("width") ?? "");
-    const h = parseFloat(svg.getAttribute("height") ?? "");
-    if (Number.isFinite(w) && Number.isFinite(h) && w > 0 && h > 0) return { width: w, height: h };
-    return null;
-  });
-  if (dims == null) {
+  try {
+    const page = await ctx.newPage();
+    // Load the SVG inside a minimal HTML host so Chromium uses its native
+    // SVG renderer (matches what consumers' browsers paint when the SVG is
+    // embedded as <img> / inline). Resolve width/height from the SVG's
+    // viewBox or width/height attributes so the screenshot rect matches.
+    await page.goto(pathToFileURL(svgPath).href);
+    const dims = await page.evaluate(() => {
+      const svg = document.querySelector("svg");
+      if (svg == null) return null;
+      const vb = svg.getAttribute("viewBox");
+      if (vb != null) {
+        const parts = vb.split(/\s+/).map(Number);
+        if (parts.length === 4) return { width: parts[2]!, height: parts[3]! };
+      }
+      const w = parseFloat(svg.getAttribute("width") ?? "");
+      const h = parseFloat(svg.getAttribute("height") ?? "");
+      if (Number.isFinite(w) && Number.isFinite(h) && w > 0 && h > 0) return { width: w, height: h };
+      return null;
+    });
+    if (dims == null) throw new Error(`svg-review: couldn't determine SVG dimensions from ${svgPath}`);
+    await page.setViewportSize({ width: Math.ceil(dims.width), height: Math.ceil(dims.height) });
+    await page.screenshot({ path: outPng, clip: { x: 0, y: 0, width: dims.width, height: dims.height }, omitBackground: false });
+    return dims;
+  } finally {
     await ctx.close();
-    throw new Error(`svg-review: couldn't determine SVG dimensions from ${svgPath}`);
   }
-  await page.setViewportSize({ width: Math.ceil(dims.width), height: Math.ceil(dims.height) });
-  await page.screenshot({ path: outPng, clip: { x: 0, y: 0, width: dims.width, height: dims.height }, omitBackground: false });
-  await ctx.close();
-  return dims;
 }
 
 async function main(): Promise<void> {
-- 
2.43.0


From e3e338b3d77857c3addcf7aa59826acb47429b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:29 +0000
Subject: [PATCH 06/44] fix: remove svg-review's temporary directory on exit

---
 src/cli/review.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cli/review.ts b/src/cli/review.ts
index 053600e..0418855 100644
--- a/src/cli/review.ts
+++ b/src/cli/review.ts
@@ -18,7 +18,7 @@
 
 import { parseArgs } from "node:util";
 import { resolve, extname, basename } from "node:path";
-import { mkdtempSync, writeFileSync, existsSync } from "node:fs";
+import { mkdtempSync, rmSync, writeFileSync, existsSync } from "node:fs";
 import { tmpdir } from "node:os";
 import { pathToFileURL } from "node:url";
 import { type Browser } from "@playwright/test";
@@ -135,6 +135,9 @@ async function main(): Promise<void> {
   }
 
   const tmp = mkdtempSync(resolve(tmpdir(), "svg-review-"));
+  // Every way this command ends — success, failure, Ctrl-C — goes through
+  // process exit, so drop the rasterised PNG + diff there.
+  process.once("exit", () => { rmSync(tmp, { recursive: true, force: true }); });
   const expectedPng = flags.expected;
   const ext = extname(flags.actual).toLowerCase();
   let actualPng: string;
-- 
2.43.0


From 3225535a34783a6ff5ffe98ab69919fcb162f3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:16 +0000
Subject: [PATCH 07/44] fix: svg-to-video stops ffmpeg on failure and survives
 its early exit

---
 src/cli/svg-to-video-core.ts | 61 +++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/src/cli/svg-to-video-core.ts b/src/cli/svg-to-video-core.ts
index df7a864..73a9760 100644
--- a/src/cli/svg-to-video-core.ts
+++ b/src/cli/svg-to-video-core.ts
@@ -774,35 +774,44 @@ export async function runSvgToVideo(opts: SvgToVideoOptions): Promise<void> {
 
     log(`ffmpeg ${ffArgs.join(" ")}`);
     const ff = spawn(ffmpeg, ffArgs, { stdio: ["pipe", "inherit", opts.quiet ? "pipe" : "inherit"] });
-    const ffStdin = ff.stdin;
-    if (!ffStdin) throw new Error("ffmpeg stdin pipe unavailable");
-    const ffDone = new Promise<void>((resolve, reject) => {
-      ff.on("error", reject);
-      ff.on("close", (code) => (code === 0 ? resolve() : reject(new Error(`ffmpeg exited ${code}`))));
-    });
-
-    const writeFrame = (buf: Buffer): Promise<void> =>
-      new Promise((resolve, reject) => {
-        ffStdin.write(buf, (err) => (err ? reject(err) : resolve()));
+    try {
+      const ffStdin = ff.stdin;
+      if (!ffStdin) throw new Error("ffmpeg stdin pipe unavailable");
+      const ffDone = new Promise<void>((resolve, reject) => {
+        ff.on("error", reject);
+        ff.on("close", (code) => (code === 0 ? resolve() : reject(new Error(`ffmpeg exited ${code}`))));
       });
-
-    // frame 0 (already rendered)
-    if (framesDir) writeFileSync(path.join(framesDir, frameName(0)), firstFrame);
-    await writeFrame(firstFrame);
-
-    for (let i = 1; i < frameCount; i++) {
-      const t = frameSampleTimeMs(i, opts.fps);
-      await seekTo(page, t);
-      const buf = await screenshot(page, omitBackground);
-      if (framesDir) writeFileSync(path.join(framesDir, frameName(i)), buf);
-      await writeFrame(buf);
-      if (!opts.quiet && (i % opts.fps === 0 || i === frameCount - 1)) {
-        log(`  rendered ${i + 1}/${frameCount} frames`);
+      // ffmpeg can fail while frames are still being written: the failed write
+      // reports it, so neither the early rejection nor the stream's own EPIPE
+      // event may escape as uncaught.
+      ffDone.catch(() => {});
+      ffStdin.on("error", () => {});
+
+      const writeFrame = (buf: Buffer): Promise<void> =>
+        new Promise((resolve, reject) => {
+          ffStdin.write(buf, (err) => (err ? reject(err) : resolve()));
+        });
+
+      // frame 0 (already rendered)
+      if (framesDir) writeFileSync(path.join(framesDir, frameName(0)), firstFrame);
+      await writeFrame(firstFrame);
+
+      for (let i = 1; i < frameCount; i++) {
+        const t = frameSampleTimeMs(i, opts.fps);
+        await seekTo(page, t);
+        const buf = await screenshot(page, omitBackground);
+        if (framesDir) writeFileSync(path.join(framesDir, frameName(i)), buf);
+        await writeFrame(buf);
+        if (!opts.quiet && (i % opts.fps === 0 || i === frameCount - 1)) {
+          log(`  rendered ${i + 1}/${frameCount} frames`);
+        }
       }
-    }
 
-    ffStdin.end();
-    await ffDone;
+      ffStdin.end();
+      await ffDone;
+    } finally {
+      ff.kill(); // no-op once ffmpeg has exited
+    }
     log(`wrote ${opts.output}`);
   } finally {
     await browser.close();
-- 
2.43.0


From 4b26575884053865fdd075a51204b4c6ba604176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:16 +0000
Subject: [PATCH 08/44] fix: svg-to-video --quiet discards ffmpeg's stderr
 instead of letting an unread pipe fill and block it

---
 src/cli/svg-to-video-core.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/svg-to-video-core.ts b/src/cli/svg-to-video-core.ts
index 73a9760..278bb2b 100644
--- a/src/cli/svg-to-video-core.ts
+++ b/src/cli/svg-to-video-core.ts
@@ -773,7 +773,7 @@ export async function runSvgToVideo(opts: SvgToVideoOptions): Promise<void> {
     });
 
     log(`ffmpeg ${ffArgs.join(" ")}`);
-    const ff = spawn(ffmpeg, ffArgs, { stdio: ["pipe", "inherit", opts.quiet ? "pipe" : "inherit"] });
+    const ff = spawn(ffmpeg, ffArgs, { stdio: ["pipe", "inherit", opts.quiet ? "ignore" : "inherit"] });
     try {
       const ffStdin = ff.stdin;
       if (!ffStdin) throw new Error("ffmpeg stdin pipe unavailable");
-- 
2.43.0


From b7585eb59800001ddfa18315efb14c12ff7b6da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:24 +0000
Subject: [PATCH 09/44] fix: scrubber MP4 export stops ffmpeg and removes its
 temp dir on failure, and survives ffmpeg's early exit

---
 src/scrubber/server.ts | 49 +++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/scrubber/server.ts b/src/scrubber/server.ts
index 2f0f0cb..5e9f59c 100644
--- a/src/scrubber/server.ts
+++ b/src/scrubber/server.ts
@@ -149,28 +149,37 @@ async function renderRangeVideo(page: Page, svg: string, t0: number, t1: number,
   }
 
   const dir = mkdtempSync(join(tmpdir(), "scrubber-mp4-"));
-  const outPath = join(dir, "range.mp4");
-  const args = buildFfmpegArgs({ fps: EXPORT_FPS, frameWidth: frameW, frameHeight: frameH, outWidth: frameW, outHeight: frameH, fmt, output: outPath, burnCaptions: false });
-  const ff = spawn(ffmpeg, args, { stdio: ["pipe", "ignore", "pipe"] });
-  let ffErr = "";
-  ff.stderr?.on("data", (d: Buffer) => { ffErr += d.toString(); if (ffErr.length > 8192) ffErr = ffErr.slice(-8192); });
-  const ffDone = new Promise<void>((resolve, reject) => {
-    ff.on("error", reject);
-    ff.on("close", (code) => (code === 0 ? resolve() : reject(new Error(`ffmpeg exited ${code}: ${ffErr.slice(-400)}`))));
-  });
-  const writeFrame = (buf: Buffer): Promise<void> =>
-    new Promise((res, rej) => ff.stdin!.write(buf, (err) => (err ? rej(err) : res())));
   try {
-    for (let i = 0; i < frameCount; i++) {
-      await seekTo(page, t0 + (i * 1000) / EXPORT_FPS);
-      const shot = clip != null
-        ? await page.screenshot({ type: "png", scale: "device", clip })
-        : await screenshot(page);
-      await writeFrame(shot);
+    const outPath = join(dir, "range.mp4");
+    const args = buildFfmpegArgs({ fps: EXPORT_FPS, frameWidth: frameW, frameHeight: frameH, outWidth: frameW, outHeight: frameH, fmt, output: outPath, burnCaptions: false });
+    const ff = spawn(ffmpeg, args, { stdio: ["pipe", "ignore", "pipe"] });
+    let ffErr = "";
+    ff.stderr?.on("data", (d: Buffer) => { ffErr += d.toString(); if (ffErr.length > 8192) ffErr = ffErr.slice(-8192); });
+    try {
+      const ffDone = new Promise<void>((resolve, reject) => {
+        ff.on("error", reject);
+        ff.on("close", (code) => (code === 0 ? resolve() : reject(new Error(`ffmpeg exited ${code}: ${ffErr.slice(-400)}`))));
+      });
+      const writeFrame = (buf: Buffer): Promise<void> =>
+        new Promise((res, rej) => ff.stdin!.write(buf, (err) => (err ? rej(err) : res())));
+      // ffmpeg can fail while frames are still being written: the failed write
+      // reports it, so neither the early rejection nor the stream's own EPIPE event
+      // may escape as uncaught and take the server down.
+      ffDone.catch(() => {});
+      ff.stdin?.on("error", () => {});
+      for (let i = 0; i < frameCount; i++) {
+        await seekTo(page, t0 + (i * 1000) / EXPORT_FPS);
+        const shot = clip != null
+          ? await page.screenshot({ type: "png", scale: "device", clip })
+          : await screenshot(page);
+        await writeFrame(shot);
+      }
+      ff.stdin!.end();
+      await ffDone;
+      return readFileSync(outPath);
+    } finally {
+      ff.kill(); // no-op once ffmpeg has exited
     }
-    ff.stdin!.end();
-    await ffDone;
-    return readFileSync(outPath);
   } finally {
     rmSync(dir, { recursive: true, force: true });
   }
-- 
2.43.0


From f2d58dda4ada29fdd5027b96729b301dba94e8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:24 +0000
Subject: [PATCH 10/44] fix: dispose the text-paint probe when the capture walk
 itself fails

---
 src/capture/index.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/capture/index.ts b/src/capture/index.ts
index ca73753..2a14a87 100644
--- a/src/capture/index.ts
+++ b/src/capture/index.ts
@@ -1613,6 +1613,7 @@ export async function captureElementTreeWithWarnings(
     if (result == null) {
       await pseudoStyles?.dispose();
       await projectiveProbe?.dispose();
+      await textPaintProbe?.dispose();
     }
   }
   const typed = result as { tree: CapturedElement[]; warnings: CaptureWarning[] };
-- 
2.43.0


From 9d4106e1cc90f355ca5af32bd195d86c25f4a06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:33 +0000
Subject: [PATCH 11/44] fix: waitForSettled clears its guard timers so they do
 not keep the process alive

---
 src/utils/wait-events.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils/wait-events.ts b/src/utils/wait-events.ts
index 00158f8..4c062a2 100644
--- a/src/utils/wait-events.ts
+++ b/src/utils/wait-events.ts
@@ -74,13 +74,16 @@ export async function waitForNextPaint(page: Page): Promise<void> {
 export async function waitForSettled(page: Page, opts?: { networkIdle?: boolean; timeoutMs?: number }): Promise<void> {
   const timeoutMs = opts?.timeoutMs ?? 5000;
   const guard = async <T>(p: Promise<T>): Promise<T | undefined> => {
+    let timer: ReturnType<typeof setTimeout> | undefined;
     try {
       return await Promise.race([
         p,
-        new Promise<undefined>((resolve) => setTimeout(() => resolve(undefined), timeoutMs)),
+        new Promise<undefined>((resolve) => { timer = setTimeout(() => resolve(undefined), timeoutMs); }),
       ]);
     } catch {
       return undefined;
+    } finally {
+      clearTimeout(timer);
     }
   };
   if (opts?.networkIdle === true) {
-- 
2.43.0


From cf8427128254139ce5f2eb2f35c0c495a79de01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:03 +0000
Subject: [PATCH 12/44] fix: restore neutralised transforms when neutralising
 another frame fails

---
 src/capture/text-paint-geometry-cdp.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/capture/text-paint-geometry-cdp.ts b/src/capture/text-paint-geometry-cdp.ts
index 3064ba2..b49f41b 100644
--- a/src/capture/text-paint-geometry-cdp.ts
+++ b/src/capture/text-paint-geometry-cdp.ts
@@ -392,8 +392,9 @@ export async function prepareTextPaintGeometry(
       playbackRate = undefined;
     }
     const live = await measureRows(session, key, prepared, contexts, viewport);
-    await mutateFrames(prepared, key, true);
+    // Set first: one frame failing leaves the others already neutralised.
     neutral = true;
+    await mutateFrames(prepared, key, true);
     await settleFrames(prepared);
     const neutralQuads = await measureRows(session, key, prepared, contexts, viewport);
     const neutralResult = await captureNeutralTree(key);
@@ -454,9 +455,9 @@ export async function prepareTextPaintGeometry(
     key,
     warnings,
     withNeutralTransforms: async <T>(work: () => Promise<T>): Promise<T> => {
-      await mutateFrames(prepared, key, true);
-      await settleFrames(prepared);
       try {
+        await mutateFrames(prepared, key, true);
+        await settleFrames(prepared);
         return await work();
       } finally {
         await mutateFrames(prepared, key, false);
-- 
2.43.0


From dcaace249cd8f1ce3eb3e2b052930ba6377e1a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:15 +0000
Subject: [PATCH 13/44] fix: remove the colour-normalisation probe element from
 the captured page

---
 src/capture/script.generated.ts  |  2 +-
 src/capture/script/color-norm.ts |  6 +++++-
 src/capture/script/index.ts      | 13 ++++++++++---
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/capture/script.generated.ts b/src/capture/script.generated.ts
index 5f2e0c4..b127330 100644
--- a/src/capture/script.generated.ts
+++ b/src/capture/script.generated.ts
@@ -4,4 +4,4 @@
 // Run `npm run build:capture-script` (or any of the npm scripts that depend on
 // it: build, typecheck, test, capture, demos:*) to regenerate.
 
-export const CAPTURE_SCRIPT: string = "\n(() => {\n// src/capture/script/color-norm.ts\nvar createColorNorm = () => {\n  const probe = document.createElement(\"div\");\n  probe.style.position = \"absolute\";\n  probe.style.visibility = \"hidden\";\n  document.body.appendChild(probe);\n  const normColor = (c, elColor) => {\n    if (c == null || c === \"\" || c === \"transparent\" || c === \"currentcolor\" || c === \"auto\") return c;\n    if (/^(rgba?\\(|#[0-9a-f]{3,8}$)/i.test(c)) return c;\n    var probeIn = c;\n    if (elColor != null && elColor !== \"\" && /\\bcurrentcolor\\b/i.test(c)) {\n      probeIn = c.replace(/\\bcurrentcolor\\b/gi, elColor);\n    }\n    try {\n      probe.style.color = \"\";\n      probe.style.color = \"color-mix(in srgb, \" + probeIn + \" 100%, transparent 0%)\";\n      const v = getComputedStyle(probe).color;\n      if (v != null && v !== \"\") return v;\n    } catch (e) {\n    }\n    return c;\n  };\n  const normGradientColors = (text, elColor) => {\n    if (text == null || text === \"\" || text === \"none\") return text;\n    const fnRe = /\\b(oklch|oklab|lab|lch|hwb|hsl|hsla|color|color-mix)\\(/gi;\n    var out = \"\";\n    var i = 0;\n    while (i < text.length) {\n      fnRe.lastIndex = i;\n      const m = fnRe.exec(text);\n      if (m == null) {\n        out += text.slice(i);\n        break;\n      }\n      out += text.slice(i, m.index);\n      var depth = 1;\n      var j = m.index + m[0].length;\n      while (j < text.length && depth > 0) {\n        const ch = text[j++];\n        if (ch === \"(\") depth++;\n        else if (ch === \")\") depth--;\n      }\n      const call = text.slice(m.index, j);\n      out += normColor(call, elColor);\n      i = j;\n    }\n    return out;\n  };\n  return { normColor, normGradientColors };\n};\n\n// src/capture/script/emoji-detect.ts\nvar RE_EMOJI = /\\p{Emoji}/u;\nvar RE_EMOJI_PRESENTATION = /\\p{Emoji_Presentation}/u;\nvar RE_EMOJI_MODIFIER_BASE = /\\p{Emoji_Modifier_Base}/u;\nvar RE_EMOJI_MODIFIER = /\\p{Emoji_Modifier}/u;\nvar RE_REGIONAL_INDICATOR = /\\p{Regional_Indicator}/u;\nvar emojiCategory = (cp) => {\n  const ch = String.fromCodePoint(cp);\n  if (cp <= 127) return cp === 35 || cp === 42 || cp >= 48 && cp <= 57 ? \"keycap\" : \"other\";\n  if (cp === 8419) return \"keycap-mark\";\n  if (cp === 8416) return \"circle-backslash\";\n  if (cp === 8205) return \"zwj\";\n  if (cp === 65038) return \"vs15\";\n  if (cp === 65039) return \"vs16\";\n  if (cp === 127988) return \"tag-base\";\n  if (cp >= 917536 && cp <= 917630) return \"tag-sequence\";\n  if (cp === 917631) return \"tag-term\";\n  if (RE_EMOJI_MODIFIER_BASE.test(ch)) return \"modifier-base\";\n  if (RE_EMOJI_MODIFIER.test(ch)) return \"modifier\";\n  if (RE_REGIONAL_INDICATOR.test(ch)) return \"regional-indicator\";\n  if (RE_EMOJI_PRESENTATION.test(ch)) return \"emoji-default\";\n  if (RE_EMOJI.test(ch)) return \"text-default\";\n  return \"other\";\n};\nvar isAnyEmoji = (cat) => cat === \"text-default\" || cat === \"emoji-default\" || cat === \"keycap\" || cat === \"modifier-base\" || cat === \"tag-base\";\nvar scanEmojiPresentation = (text, classify = emojiCategory) => {\n  const units = [];\n  for (let i2 = 0; i2 < text.length; ) {\n    const cp = text.codePointAt(i2);\n    const ch = String.fromCodePoint(cp);\n    units.push({ start: i2, end: i2 + ch.length, cat: classify(cp) });\n    i2 += ch.length;\n  }\n  const spans = [];\n  const push = (startUnit, endUnit, presentation, hasVs) => spans.push({\n    start: units[startUnit].start,\n    end: units[endUnit - 1].end,\n    presentation,\n    hasVs\n  });\n  const elementEnd = (at) => {\n    if (at >= units.length || !isAnyEmoji(units[at].cat)) return at;\n    if (at + 1 < units.length && units[at + 1].cat === \"vs16\") return at + 2;\n    if (units[at].cat === \"modifier-base\" && at + 1 < units.length && units[at + 1].cat === \"modifier\") return at + 2;\n    return at + 1;\n  };\n  let i = 0;\n  while (i < units.length) {\n    const c = units[i].cat;\n    if (isAnyEmoji(c) && i + 1 < units.length && units[i + 1].cat === \"vs15\") {\n      let end2 = i + 2;\n      if (c === \"keycap\" && end2 < units.length && units[end2].cat === \"keycap-mark\") end2++;\n      push(i, end2, \"text\", true);\n      i = end2;\n      continue;\n    }\n    let end = 0;\n    let hasVs = false;\n    if (isAnyEmoji(c) && i + 1 < units.length && units[i + 1].cat === \"vs16\") {\n      end = i + 2;\n      hasVs = true;\n      if (c === \"keycap\" && end < units.length && units[end].cat === \"keycap-mark\") end++;\n    } else if (c === \"modifier-base\" && i + 1 < units.length && units[i + 1].cat === \"modifier\") {\n      end = i + 2;\n    } else if (c === \"regional-indicator\" && i + 1 < units.length && units[i + 1].cat === \"regional-indicator\") {\n      end = i + 2;\n    } else if (c === \"tag-base\") {\n      let j = i + 1;\n      while (j < units.length && units[j].cat === \"tag-sequence\") j++;\n      if (j > i + 1 && j < units.length && units[j].cat === \"tag-term\") end = j + 1;\n      else end = i + 1;\n    } else if (isAnyEmoji(c) && i + 1 < units.length && units[i + 1].cat === \"circle-backslash\") {\n      end = i + 2;\n    } else if (c === \"emoji-default\" || c === \"tag-base\" || c === \"modifier-base\") {\n      end = i + 1;\n    }\n    const firstElementEnd = elementEnd(i);\n    if (firstElementEnd > i) {\n      let j = firstElementEnd;\n      let joined = false;\n      while (j + 1 < units.length && units[j].cat === \"zwj\") {\n        const nextEnd = elementEnd(j + 1);\n        if (nextEnd === j + 1) break;\n        joined = true;\n        j = nextEnd;\n      }\n      if (joined) {\n        end = j;\n        hasVs = false;\n      }\n    }\n    if (end > i) {\n      push(i, end, \"emoji\", hasVs);\n      i = end;\n      continue;\n    }\n    i++;\n  }\n  return spans;\n};\nvar createEmojiDetect = () => {\n  const rasterCandidates = (text, fontVariantEmoji = \"normal\") => {\n    const spans = scanEmojiPresentation(text);\n    if (fontVariantEmoji != null && fontVariantEmoji !== \"normal\" && fontVariantEmoji !== \"unicode\") {\n      const covered = /* @__PURE__ */ new Set();\n      for (const span of spans) for (let i = span.start; i < span.end; i++) covered.add(i);\n      for (let i = 0; i < text.length; ) {\n        const cp = text.codePointAt(i);\n        const ch = String.fromCodePoint(cp);\n        const next = i + ch.length < text.length ? text.codePointAt(i + ch.length) : 0;\n        if (!covered.has(i) && RE_EMOJI.test(ch) && next !== 65038 && next !== 65039) {\n          spans.push({ start: i, end: i + ch.length, presentation: fontVariantEmoji, hasVs: false });\n        } else if (fontVariantEmoji === \"text\") {\n          const span = spans.find((s) => s.start === i);\n          if (span != null && !span.hasVs) span.presentation = \"text\";\n        }\n        i += ch.length;\n      }\n    }\n    const byStart = new Map(spans.map((span) => [span.start, span]));\n    const candidates = [];\n    const segmenter = typeof Intl !== \"undefined\" && Intl.Segmenter != null ? new Intl.Segmenter(void 0, { granularity: \"grapheme\" }) : null;\n    if (segmenter != null) {\n      for (const part of segmenter.segment(text)) {\n        if (/^\\s+$/u.test(part.segment)) continue;\n        const source = byStart.get(part.index);\n        candidates.push(source ?? { start: part.index, end: part.index + part.segment.length, presentation: \"text\", hasVs: false });\n      }\n    } else {\n      for (let i = 0; i < text.length; ) {\n        const cp = text.codePointAt(i);\n        const ch = String.fromCodePoint(cp);\n        if (!/^\\s+$/u.test(ch)) candidates.push(byStart.get(i) ?? { start: i, end: i + ch.length, presentation: \"text\", hasVs: false });\n        i += ch.length;\n      }\n    }\n    return candidates;\n  };\n  const textNeedsRaster = (text, _font = \"\", fontVariantEmoji = \"normal\") => {\n    const spans = scanEmojiPresentation(text);\n    if (fontVariantEmoji === \"emoji\") return spans.length > 0 || [...text].some((ch) => RE_EMOJI.test(ch));\n    return spans.length > 0;\n  };\n  return { rasterCandidates, textNeedsRaster };\n};\n\n// src/capture/script/dotted-circle-detect.ts\nvar dottedCircleInkMatches = (bare, comb) => {\n  const ratio = comb.cnt > 0 ? bare.cnt / comb.cnt : 0;\n  let union = 0, xor = 0;\n  for (let i = 0; i < bare.mask.length; i++) {\n    if (bare.mask[i] || comb.mask[i]) union++;\n    if (bare.mask[i] !== comb.mask[i]) xor++;\n  }\n  const mismatch = union > 0 ? xor / union : 1;\n  return bare.cnt > 20 && ratio > 0.9 && comb.w <= bare.w * 1.25 && mismatch < 0.12;\n};\nvar isDottedCircleProbeCandidate = (ch) => /\\p{M}|\\p{Lo}|\\p{Lm}/u.test(ch);\nvar createDottedCircleDetect = () => {\n  let _cv = null;\n  let _ctx = null;\n  const _cache = /* @__PURE__ */ new Map();\n  const inkStats = (s, font) => {\n    if (_ctx == null) {\n      _cv = document.createElement(\"canvas\");\n      _cv.width = 96;\n      _cv.height = 64;\n      _ctx = _cv.getContext(\"2d\", { willReadFrequently: true });\n    }\n    _ctx.clearRect(0, 0, 96, 64);\n    _ctx.fillStyle = \"#000\";\n    _ctx.textBaseline = \"middle\";\n    _ctx.font = \"32px \" + font;\n    _ctx.fillText(s, 40, 32);\n    const data = _ctx.getImageData(0, 0, 96, 64).data;\n    let cnt = 0, minx = 1e9, maxx = -1;\n    const mask = new Uint8Array(96 * 64);\n    for (let y = 0; y < 64; y++) {\n      for (let x = 0; x < 96; x++) {\n        if (data[(y * 96 + x) * 4 + 3] > 20) {\n          mask[y * 96 + x] = 1;\n          cnt++;\n          if (x < minx) minx = x;\n          if (x > maxx) maxx = x;\n        }\n      }\n    }\n    return { cnt, w: cnt > 0 ? maxx - minx + 1 : 0, mask };\n  };\n  const markGetsDottedCircle = (cp, ch, font) => {\n    if (font == null || font === \"\") return false;\n    if (!isDottedCircleProbeCandidate(ch)) return false;\n    const key = cp + \"|\" + font;\n    const hit = _cache.get(key);\n    if (hit !== void 0) return hit;\n    let res = false;\n    try {\n      const bare = inkStats(ch, font);\n      const comb = inkStats(\"\\u25CC\" + ch, font);\n      res = dottedCircleInkMatches(bare, comb);\n    } catch (e) {\n      res = false;\n    }\n    _cache.set(key, res);\n    return res;\n  };\n  return { markGetsDottedCircle };\n};\n\n// src/capture/script/font-metrics.ts\nvar createFontMetrics = () => {\n  const metricsCache = /* @__PURE__ */ new Map();\n  const localFaceMap = /* @__PURE__ */ new Map();\n  const probeWidthCS = (familyExpr, weight, style) => {\n    const span = document.createElement(\"span\");\n    span.style.cssText = \"position:absolute;left:-9999px;top:-9999px;visibility:hidden;font-size:16px;line-height:1;white-space:pre\";\n    span.style.fontFamily = familyExpr;\n    span.style.fontWeight = weight;\n    span.style.fontStyle = style;\n    span.textContent = \"mIw0\";\n    document.body.appendChild(span);\n    const w = span.getBoundingClientRect().width;\n    document.body.removeChild(span);\n    return w;\n  };\n  for (const sheet of Array.from(document.styleSheets)) {\n    let cssRules;\n    try {\n      cssRules = sheet.cssRules;\n    } catch (e) {\n      continue;\n    }\n    for (const rule of Array.from(cssRules)) {\n      if (rule.constructor.name !== \"CSSFontFaceRule\") continue;\n      const r = rule;\n      const family = r.style.getPropertyValue(\"font-family\").trim().replace(/^[\"']|[\"']$/g, \"\").toLowerCase();\n      const weight = r.style.getPropertyValue(\"font-weight\") || \"400\";\n      const styleDesc = r.style.getPropertyValue(\"font-style\") || \"normal\";\n      const src = r.style.getPropertyValue(\"src\");\n      if (family === \"\" || /url\\(/.test(src)) continue;\n      const matches = src.match(/local\\(\\s*[\"']?[^\"')]+?[\"']?\\s*\\)/g);\n      if (matches == null) continue;\n      const locals = [];\n      for (const mm of matches) {\n        const inner = /local\\(\\s*[\"']?([^\"')]+?)[\"']?\\s*\\)/.exec(mm);\n        if (inner != null) locals.push(inner[1].trim());\n      }\n      if (locals.length === 0) continue;\n      const stripVariant = (n) => n.replace(/\\s+(Bold Italic|Italic Bold|Bold|Italic|Oblique|Regular|Light|Medium|Semibold|Black)$/i, \"\").trim();\n      let resolved = null;\n      const aliasW = probeWidthCS('\"' + family + '\"', weight, styleDesc);\n      for (const cand of locals) {\n        const candW = probeWidthCS('\"' + stripVariant(cand) + '\"', weight, styleDesc);\n        if (Math.abs(candW - aliasW) < 0.05) {\n          resolved = cand;\n          break;\n        }\n      }\n      if (resolved == null) resolved = locals[0];\n      if (!localFaceMap.has(family)) localFaceMap.set(family, resolved);\n    }\n  }\n  const substituteAliasedFamilies = (ff) => {\n    if (localFaceMap.size === 0) return ff;\n    const parts = ff.split(\",\").map((s) => s.trim());\n    let changed = false;\n    const out = parts.map((p) => {\n      const bare = p.replace(/^[\"']|[\"']$/g, \"\").toLowerCase();\n      const local = localFaceMap.get(bare);\n      if (local == null) return p;\n      changed = true;\n      return /\\s/.test(local) ? '\"' + local + '\"' : local;\n    });\n    return changed ? out.join(\", \") : ff;\n  };\n  const measureFontMetrics = (cs, fontSizeOverride) => {\n    const fs = cs.fontStyle || \"normal\";\n    const fw = cs.fontWeight || \"400\";\n    const fz = fontSizeOverride || cs.fontSize || \"14px\";\n    const ff = substituteAliasedFamilies(cs.fontFamily || \"sans-serif\");\n    const key = fs + \"|\" + fw + \"|\" + fz + \"|\" + ff;\n    let v = metricsCache.get(key);\n    if (v != null) return v;\n    const c = document.createElement(\"canvas\");\n    const ctx = c.getContext(\"2d\");\n    ctx.font = fs + \" \" + fw + \" \" + fz + \" \" + ff;\n    const m = ctx.measureText(\"Mxgp\");\n    v = { ascent: m.fontBoundingBoxAscent, descent: m.fontBoundingBoxDescent };\n    metricsCache.set(key, v);\n    return v;\n  };\n  return { measureFontMetrics, substituteAliasedFamilies };\n};\n\n// src/capture/script/utils.ts\nvar isUnsetCssValue = (v) => v === \"\" || v === \"initial\" || v === \"inherit\" || v === \"unset\" || v === \"revert\";\nvar hasCssValue = (v) => v != null && v !== \"\" && v !== \"none\";\nvar extractCssUrl = (value) => {\n  const u = /\\burl\\(\\s*(?:\"((?:\\\\.|[^\"\\\\])*)\"|'((?:\\\\.|[^'\\\\])*)'|([^)\\s]+))\\s*\\)/.exec(value || \"\");\n  if (u == null) return null;\n  const raw = u[1] || u[2] || u[3] || \"\";\n  if (raw === \"\") return null;\n  return raw.replace(/\\\\(.)/g, \"$1\");\n};\nvar sideWidths = (cs, prop, suffix) => ({\n  top: parseFloat(cs[prop + \"Top\" + suffix]) || 0,\n  right: parseFloat(cs[prop + \"Right\" + suffix]) || 0,\n  bottom: parseFloat(cs[prop + \"Bottom\" + suffix]) || 0,\n  left: parseFloat(cs[prop + \"Left\" + suffix]) || 0\n});\nvar NAMED_COLOR_ALTERNATION = \"lightgoldenrodyellow|mediumspringgreen|mediumaquamarine|mediumslateblue|mediumturquoise|mediumvioletred|blanchedalmond|cornflowerblue|darkolivegreen|lightslategray|lightslategrey|lightsteelblue|mediumseagreen|darkgoldenrod|darkslateblue|darkslategray|darkslategrey|darkturquoise|lavenderblush|lightseagreen|palegoldenrod|paleturquoise|palevioletred|rebeccapurple|antiquewhite|darkseagreen|lemonchiffon|lightskyblue|mediumorchid|mediumpurple|midnightblue|darkmagenta|deepskyblue|floralwhite|forestgreen|greenyellow|lightsalmon|lightyellow|navajowhite|saddlebrown|springgreen|yellowgreen|aquamarine|blueviolet|chartreuse|darkorange|darkorchid|darksalmon|darkviolet|dodgerblue|ghostwhite|lightcoral|lightgreen|mediumblue|papayawhip|powderblue|sandybrown|whitesmoke|aliceblue|burlywood|cadetblue|chocolate|darkgreen|darkkhaki|firebrick|gainsboro|goldenrod|indianred|lawngreen|lightblue|lightcyan|lightgray|lightgrey|lightpink|limegreen|mintcream|mistyrose|olivedrab|orangered|palegreen|peachpuff|rosybrown|royalblue|slateblue|slategray|slategrey|steelblue|turquoise|cornsilk|darkblue|darkcyan|darkgray|darkgrey|deeppink|honeydew|lavender|moccasin|seagreen|seashell|crimson|darkred|dimgray|dimgrey|fuchsia|hotpink|magenta|oldlace|skyblue|thistle|bisque|indigo|maroon|orange|orchid|purple|salmon|sienna|silver|tomato|violet|yellow|azure|beige|black|brown|coral|green|ivory|khaki|linen|olive|wheat|white|aqua|blue|cyan|gold|gray|grey|lime|navy|peru|pink|plum|snow|teal|red|tan|transparent|currentColor\";\nvar firstColorRe = new RegExp(\n  `(#[0-9a-fA-F]{3,8}|rgba?\\\\([^)]*\\\\)|hsla?\\\\([^)]*\\\\)|\\\\b(?:${NAMED_COLOR_ALTERNATION})\\\\b)`\n);\nvar _TEXT_INPUT_TYPES = /* @__PURE__ */ new Set([\"text\", \"search\", \"url\", \"tel\", \"email\", \"password\", \"number\"]);\nvar resolveElementCursor = (el, cs) => {\n  let c = (cs.cursor || \"auto\").trim();\n  if (c.indexOf(\"url(\") !== -1) {\n    const parts = c.split(\",\");\n    c = parts[parts.length - 1].trim();\n  }\n  if (c !== \"auto\") return c;\n  const tag = el.tagName;\n  const editable = el.isContentEditable === true || tag === \"TEXTAREA\" || tag === \"INPUT\" && _TEXT_INPUT_TYPES.has((el.getAttribute(\"type\") || \"text\").toLowerCase());\n  let selectableText = false;\n  if (!editable) {\n    const us = cs.userSelect || cs.webkitUserSelect || \"\";\n    if (us !== \"none\") {\n      for (let i = 0; i < el.childNodes.length; i++) {\n        const n = el.childNodes[i];\n        if (n.nodeType === 3 && n.textContent && n.textContent.trim() !== \"\") {\n          selectableText = true;\n          break;\n        }\n      }\n    }\n  }\n  if (editable || selectableText) {\n    return (cs.writingMode || \"\").indexOf(\"vertical\") === 0 ? \"vertical-text\" : \"text\";\n  }\n  return \"default\";\n};\nvar isOutsideCaptureViewport = (rect, vp) => rect.right < vp.x || rect.bottom < vp.y || rect.left > vp.x + vp.width || rect.top > vp.y + vp.height;\n\n// src/capture/script/placeholder-shown.ts\nvar createPlaceholderShown = () => {\n  const rules = [];\n  const collect = (cssRules) => {\n    if (cssRules == null) return;\n    for (let i = 0; i < cssRules.length; i++) {\n      const rule = cssRules[i];\n      if (rule == null) continue;\n      const sel = rule.selectorText;\n      if (typeof sel === \"string\" && sel.indexOf(\":placeholder-shown\") >= 0) {\n        const hostSel = sel.replace(/:placeholder-shown/g, \"\").trim() || \"*\";\n        const decl = rule.style;\n        let bg = \"\";\n        if (!isUnsetCssValue(decl.backgroundColor)) bg = decl.backgroundColor;\n        else if (!isUnsetCssValue(decl.background)) {\n          const cm = decl.background.match(firstColorRe);\n          if (cm != null) bg = cm[1];\n        }\n        if (bg !== \"\") rules.push({ hostSel, bg });\n      }\n      if (rule.cssRules != null && rule.cssRules.length > 0) collect(rule.cssRules);\n    }\n  };\n  for (let i = 0; i < document.styleSheets.length; i++) {\n    try {\n      collect(document.styleSheets[i].cssRules);\n    } catch (e) {\n    }\n  }\n  const resolvePlaceholderShownBg = (el) => {\n    let bg = \"\";\n    for (let i = 0; i < rules.length; i++) {\n      const r = rules[i];\n      let isMatch = false;\n      try {\n        isMatch = el.matches(r.hostSel);\n      } catch (e) {\n      }\n      if (isMatch) bg = r.bg;\n    }\n    return bg;\n  };\n  return { resolvePlaceholderShownBg };\n};\n\n// src/capture/script/font-family-default.ts\nvar GENERIC_FAMILY_KEYWORDS = {\n  \"serif\": 1,\n  \"sans-serif\": 1,\n  \"monospace\": 1,\n  \"cursive\": 1,\n  \"fantasy\": 1,\n  \"system-ui\": 1,\n  \"ui-serif\": 1,\n  \"ui-sans-serif\": 1,\n  \"ui-monospace\": 1,\n  \"ui-rounded\": 1,\n  \"emoji\": 1,\n  \"math\": 1,\n  \"fangsong\": 1,\n  \"-webkit-body\": 1,\n  \"-webkit-standard\": 1,\n  \"-webkit-pictograph\": 1\n};\nvar createFontFamilyDefault = () => {\n  const selectorsByDocument = /* @__PURE__ */ new WeakMap();\n  const collect = (cssRules, familySelectors) => {\n    if (cssRules == null) return;\n    for (let i = 0; i < cssRules.length; i++) {\n      const rule = cssRules[i];\n      if (rule == null) continue;\n      const sel = rule.selectorText;\n      if (typeof sel === \"string\" && rule.style != null && rule.style.fontFamily !== \"\") {\n        familySelectors.push(sel);\n      }\n      if (rule.cssRules != null && rule.cssRules.length > 0) collect(rule.cssRules, familySelectors);\n    }\n  };\n  const selectorsFor = (doc) => {\n    const cached = selectorsByDocument.get(doc);\n    if (cached != null) return cached;\n    const familySelectors = [];\n    for (let i = 0; i < doc.styleSheets.length; i++) {\n      try {\n        collect(doc.styleSheets[i].cssRules, familySelectors);\n      } catch (e) {\n      }\n    }\n    selectorsByDocument.set(doc, familySelectors);\n    return familySelectors;\n  };\n  const UA_CONCRETE_FAMILY_TAGS = { INPUT: 1, TEXTAREA: 1, SELECT: 1, BUTTON: 1, KEYGEN: 1 };\n  const nodeSetsNonStandardFamily = (n, familySelectors) => {\n    if (UA_CONCRETE_FAMILY_TAGS[n.tagName] === 1) return true;\n    if (n.style != null && n.style.fontFamily !== \"\") return true;\n    if (n.tagName === \"FONT\" && n.hasAttribute(\"face\")) return true;\n    for (let i = 0; i < familySelectors.length; i++) {\n      let m = false;\n      try {\n        m = n.matches(familySelectors[i]);\n      } catch (e) {\n      }\n      if (m) return true;\n    }\n    return false;\n  };\n  const familyIsUADefault = (el, computedFontFamily) => {\n    if (typeof computedFontFamily !== \"string\" || computedFontFamily === \"\") return false;\n    const familySelectors = selectorsFor(el.ownerDocument || document);\n    let first = computedFontFamily.split(\",\")[0].trim();\n    if (first.charCodeAt(0) === 34 || first.charCodeAt(0) === 39) {\n      first = first.slice(1, -1);\n    }\n    if (first === \"\" || GENERIC_FAMILY_KEYWORDS[first.toLowerCase()] === 1) return false;\n    let n = el;\n    while (n != null && n.nodeType === 1) {\n      if (nodeSetsNonStandardFamily(n, familySelectors)) return false;\n      n = n.parentElement;\n    }\n    return true;\n  };\n  return { familyIsUADefault };\n};\n\n// src/capture/script/font-feature-values.ts\nfunction collectFontFeatureValues(doc) {\n  const families = {};\n  const categories = [\"annotation\", \"ornaments\", \"stylistic\", \"swash\", \"characterVariant\", \"styleset\"];\n  function familyNames(css) {\n    const out = [];\n    let token = \"\", quote = \"\";\n    for (const ch of css) {\n      if (quote) {\n        if (ch === quote) quote = \"\";\n        else token += ch;\n        continue;\n      }\n      if (ch === '\"' || ch === \"'\") {\n        quote = ch;\n        continue;\n      }\n      if (ch === \",\") {\n        if (token.trim()) out.push(token.trim().toLowerCase());\n        token = \"\";\n      } else token += ch;\n    }\n    if (token.trim()) out.push(token.trim().toLowerCase());\n    return out;\n  }\n  function visit(rules) {\n    if (!rules) return;\n    for (const rule of rules) {\n      if (typeof rule.fontFamily === \"string\" && rule.stylistic != null) {\n        for (const family of familyNames(rule.fontFamily)) {\n          const table = families[family] || (families[family] = {});\n          for (const category of categories) {\n            const entries = Array.from(rule[category].entries());\n            if (!entries.length) continue;\n            const aliases = table[category] || (table[category] = {});\n            for (const [name, values] of entries) aliases[name] = Array.from(values);\n          }\n        }\n      } else if (rule.cssRules) {\n        visit(rule.cssRules);\n      }\n    }\n  }\n  for (const sheet of doc.styleSheets) {\n    try {\n      visit(sheet.cssRules);\n    } catch {\n    }\n  }\n  return families;\n}\n\n// src/capture/script/pseudo-rules.ts\nvar _emptyPseudo = {\n  matched: false,\n  width: \"\",\n  height: \"\",\n  backgroundColor: \"\",\n  borderRadius: \"\",\n  backgroundImage: \"\",\n  border: \"\",\n  padding: \"\",\n  boxShadow: \"\"\n};\nvar createPseudoRules = (stylesByHost, propertyKey) => {\n  const resolveCornerRadius = (v, w, h, zoom) => {\n    if (v == null || v === \"\") return \"0px 0px\";\n    const z = zoom == null || zoom <= 0 ? 1 : zoom;\n    const parts = v.split(/\\s+/);\n    const a = parts[0] || \"0\";\n    const b = parts[1] != null ? parts[1] : a;\n    const aPx = a.endsWith(\"%\") ? (parseFloat(a) || 0) * w / 100 : (parseFloat(a) || 0) * z;\n    const bPx = b.endsWith(\"%\") ? (parseFloat(b) || 0) * h / 100 : (parseFloat(b) || 0) * z;\n    return aPx + \"px \" + bPx + \"px\";\n  };\n  const resolvePseudo = (el, kind) => {\n    if (propertyKey == null || propertyKey === \"\" || stylesByHost == null) return _emptyPseudo;\n    const hostId = el[propertyKey];\n    if (hostId == null) return _emptyPseudo;\n    return stylesByHost[hostId] && stylesByHost[hostId][kind] ? stylesByHost[hostId][kind] : _emptyPseudo;\n  };\n  return { resolvePseudo, resolveCornerRadius };\n};\n\n// src/capture/script/warnings.ts\nvar createWarnings = () => {\n  const warnings = [];\n  const seen = /* @__PURE__ */ new Set();\n  const shortSelector = (el) => {\n    const parts = [];\n    let cur = el;\n    while (cur != null && cur.nodeType === 1 && cur !== document.documentElement && parts.length < 5) {\n      let p = cur.tagName.toLowerCase();\n      if (cur.id) {\n        p += \"#\" + cur.id;\n        parts.unshift(p);\n        break;\n      }\n      if (cur.className && typeof cur.className === \"string\") {\n        const cls = cur.className.trim().split(/\\s+/).slice(0, 2).join(\".\");\n        if (cls !== \"\") p += \".\" + cls;\n      }\n      parts.unshift(p);\n      cur = cur.parentElement;\n    }\n    return parts.join(\" > \");\n  };\n  const warn = (sel, feature, detail) => {\n    const k = feature + \"|\" + sel;\n    if (seen.has(k)) return;\n    seen.add(k);\n    warnings.push({ selector: sel, feature, detail });\n  };\n  return { warn, shortSelector, warnings };\n};\n\n// src/capture/script/walker/counter-style-resolver.ts\nvar createCounterStyleResolver = ({ counterStyles }) => {\n  const BUILTINS = /* @__PURE__ */ new Set([\n    \"decimal\",\n    \"decimal-leading-zero\",\n    \"lower-alpha\",\n    \"lower-latin\",\n    \"upper-alpha\",\n    \"upper-latin\",\n    \"lower-roman\",\n    \"upper-roman\",\n    \"lower-greek\",\n    \"disc\",\n    \"circle\",\n    \"square\",\n    \"none\"\n  ]);\n  const resolveCounterStyle = (name, n) => _resolve(name, n, 0, true);\n  const resolveCounterValue = (name, n) => _resolve(name, n, 0, false);\n  const isCustomCounterStyle = (name) => counterStyles[name] != null;\n  const _resolve = (name, n, depth, wrap) => {\n    if (depth > 16) return null;\n    if (BUILTINS.has(name)) return _formatBuiltin(name, n);\n    const def = counterStyles[name];\n    if (def == null) return _formatBuiltin(\"decimal\", n);\n    if (def.system === \"extends\" && def.extendsName != null) {\n      const childSym = _resolve(def.extendsName, n, depth + 1, wrap);\n      if (childSym == null) return null;\n      const padded2 = _applyPad(childSym, def.padLen, def.padSym);\n      return wrap ? def.prefix + padded2 + def.suffix : padded2;\n    }\n    if (n < def.rangeLo || n > def.rangeHi) {\n      const fb = _resolve(def.fallback ?? \"decimal\", n, depth + 1, false);\n      if (fb == null) return null;\n      return wrap ? def.prefix + fb + def.suffix : fb;\n    }\n    const negative = n < 0;\n    const abs = Math.abs(n);\n    let core = null;\n    switch (def.system) {\n      case \"cyclic\":\n        if (def.symbols.length === 0) break;\n        core = def.symbols[((abs - 1) % def.symbols.length + def.symbols.length) % def.symbols.length];\n        break;\n      case \"fixed\": {\n        const idx0 = abs - 1;\n        if (idx0 >= 0 && idx0 < def.symbols.length) core = def.symbols[idx0];\n        break;\n      }\n      case \"numeric\": {\n        if (def.symbols.length < 2) break;\n        if (abs === 0) {\n          core = def.symbols[0];\n          break;\n        }\n        const base = def.symbols.length;\n        let v = abs;\n        let s = \"\";\n        while (v > 0) {\n          s = def.symbols[v % base] + s;\n          v = Math.floor(v / base);\n        }\n        core = s;\n        break;\n      }\n      case \"alphabetic\": {\n        if (def.symbols.length === 0 || abs <= 0) break;\n        const base = def.symbols.length;\n        let v = abs;\n        let s = \"\";\n        while (v > 0) {\n          v--;\n          s = def.symbols[v % base] + s;\n          v = Math.floor(v / base);\n        }\n        core = s;\n        break;\n      }\n      case \"symbolic\": {\n        if (def.symbols.length === 0 || abs <= 0) break;\n        const base = def.symbols.length;\n        const copies = Math.ceil(abs / base);\n        const sym = def.symbols[(abs - 1) % base];\n        core = sym.repeat(copies);\n        break;\n      }\n      case \"additive\": {\n        if (def.additiveSymbols.length === 0) break;\n        if (abs === 0) {\n          const zero = def.additiveSymbols.find((s) => s.weight === 0);\n          core = zero ? zero.sym : null;\n        } else {\n          let v = abs;\n          let s = \"\";\n          for (const { weight, sym } of def.additiveSymbols) {\n            if (weight <= 0) continue;\n            const count = Math.floor(v / weight);\n            for (let i = 0; i < count; i++) s += sym;\n            v -= count * weight;\n          }\n          core = v === 0 ? s : null;\n        }\n        break;\n      }\n    }\n    if (core == null) {\n      const fb = _resolve(def.fallback ?? \"decimal\", n, depth + 1, false);\n      if (fb == null) return null;\n      return wrap ? def.prefix + fb + def.suffix : fb;\n    }\n    const padded = _applyPad(core, def.padLen, def.padSym);\n    const sign = negative ? def.negPrefix : \"\";\n    const signTail = negative ? def.negSuffix : \"\";\n    return wrap ? def.prefix + sign + padded + signTail + def.suffix : sign + padded + signTail;\n  };\n  const _applyPad = (s, len, sym) => {\n    if (!len || !sym) return s;\n    while ([...s].length < len) s = sym + s;\n    return s;\n  };\n  const _formatBuiltin = (type, n) => {\n    switch (type) {\n      case \"decimal\":\n        return String(n);\n      case \"decimal-leading-zero\":\n        return n < 10 && n >= 0 ? \"0\" + n : String(n);\n      case \"lower-alpha\":\n      case \"lower-latin\":\n        return _alphaMarker(n, false);\n      case \"upper-alpha\":\n      case \"upper-latin\":\n        return _alphaMarker(n, true);\n      case \"lower-roman\":\n        return _romanMarker(n).toLowerCase();\n      case \"upper-roman\":\n        return _romanMarker(n);\n      case \"lower-greek\":\n        return _greekMarker(n);\n      case \"disc\":\n      case \"circle\":\n      case \"square\":\n      case \"none\":\n        return null;\n      default:\n        return String(n);\n    }\n  };\n  const _alphaMarker = (n, upper) => {\n    if (n <= 0) return String(n);\n    const base = upper ? 65 : 97;\n    let s = \"\";\n    let v = n;\n    while (v > 0) {\n      v--;\n      s = String.fromCharCode(base + v % 26) + s;\n      v = Math.floor(v / 26);\n    }\n    return s;\n  };\n  const _greekMarker = (n) => {\n    if (n <= 0) return String(n);\n    const greek = \"\\u03B1\\u03B2\\u03B3\\u03B4\\u03B5\\u03B6\\u03B7\\u03B8\\u03B9\\u03BA\\u03BB\\u03BC\\u03BD\\u03BE\\u03BF\\u03C0\\u03C1\\u03C3\\u03C4\\u03C5\\u03C6\\u03C7\\u03C8\\u03C9\";\n    let s = \"\";\n    let v = n;\n    while (v > 0) {\n      v--;\n      s = greek.charAt(v % 24) + s;\n      v = Math.floor(v / 24);\n    }\n    return s;\n  };\n  const _romanMarker = (n) => {\n    if (n <= 0 || n >= 4e3) return String(n);\n    const vals = [1e3, 900, 500, 400, 100, 90, 50, 40, 10, 9, 5, 4, 1];\n    const syms = [\"M\", \"CM\", \"D\", \"CD\", \"C\", \"XC\", \"L\", \"XL\", \"X\", \"IX\", \"V\", \"IV\", \"I\"];\n    let s = \"\";\n    let v = n;\n    for (let i = 0; i < vals.length; i++) {\n      while (v >= vals[i]) {\n        s += syms[i];\n        v -= vals[i];\n      }\n    }\n    return s;\n  };\n  return { resolveCounterStyle, resolveCounterValue, isCustomCounterStyle };\n};\n\n// src/capture/script/walker/counter-prewalk.ts\nvar createCounterStylePrewalk = ({ counterStyles }) => {\n  function _parseStringList(s) {\n    const out = [];\n    let i = 0;\n    while (i < s.length) {\n      while (i < s.length && /\\s/.test(s[i])) i++;\n      if (i >= s.length) break;\n      const q = s[i];\n      if (q !== '\"' && q !== \"'\") {\n        let j2 = i;\n        while (j2 < s.length && !/\\s/.test(s[j2])) j2++;\n        out.push(s.slice(i, j2));\n        i = j2;\n        continue;\n      }\n      let j = i + 1;\n      let val = \"\";\n      while (j < s.length && s[j] !== q) {\n        if (s[j] === \"\\\\\" && j + 1 < s.length) {\n          const hex = /^\\\\([0-9a-fA-F]{1,6})\\s?/.exec(s.slice(j));\n          if (hex != null) {\n            val += String.fromCodePoint(parseInt(hex[1], 16));\n            j += hex[0].length;\n            continue;\n          }\n          val += s[j + 1];\n          j += 2;\n        } else {\n          val += s[j];\n          j++;\n        }\n      }\n      out.push(val);\n      i = j + 1;\n    }\n    return out;\n  }\n  function _parseAdditiveSymbols(s) {\n    const out = [];\n    for (const tok of s.split(\",\")) {\n      const m = /(-?\\d+)\\s+(.+)/.exec(tok.trim());\n      if (m == null) continue;\n      const weight = parseInt(m[1], 10);\n      const sym = _parseStringList(m[2])[0] ?? \"\";\n      out.push({ weight, sym });\n    }\n    out.sort((a, b) => b.weight - a.weight);\n    return out;\n  }\n  function _walkRulesForCounterStyles(rules) {\n    for (let i = 0; i < rules.length; i++) {\n      const rule = rules[i];\n      if (rule.type === 11 || window.CSSCounterStyleRule != null && rule instanceof window.CSSCounterStyleRule) {\n        const name = rule.name;\n        if (!name) continue;\n        let extendsName;\n        let sys = rule.system || \"symbolic\";\n        const extMatch = /^extends\\s+(\\S+)/.exec(sys);\n        if (extMatch) {\n          extendsName = extMatch[1];\n          sys = \"extends\";\n        } else {\n          const sysMatch = /^(cyclic|numeric|alphabetic|symbolic|fixed|additive)\\b/.exec(sys);\n          sys = sysMatch ? sysMatch[1] : \"symbolic\";\n        }\n        const symbols = rule.symbols ? _parseStringList(rule.symbols) : [];\n        const additiveSymbols = rule.additiveSymbols ? _parseAdditiveSymbols(rule.additiveSymbols) : [];\n        const prefix = rule.prefix ? _parseStringList(rule.prefix)[0] ?? \"\" : \"\";\n        const suffix = rule.suffix ? _parseStringList(rule.suffix)[0] ?? \". \" : \". \";\n        const negativeRaw = rule.negative;\n        let negPrefix = \"-\";\n        let negSuffix = \"\";\n        if (negativeRaw) {\n          const nlist = _parseStringList(negativeRaw);\n          negPrefix = nlist[0] ?? \"-\";\n          if (nlist.length > 1) negSuffix = nlist[1];\n        }\n        let padLen = 0;\n        let padSym = \"\";\n        if (rule.pad) {\n          const pm = /^\\s*(\\d+)\\s+(.+)$/.exec(rule.pad);\n          if (pm != null) {\n            padLen = parseInt(pm[1], 10);\n            padSym = _parseStringList(pm[2])[0] ?? \"\";\n          }\n        }\n        let rangeLo = -Infinity;\n        let rangeHi = Infinity;\n        if (rule.range && rule.range !== \"auto\") {\n          const rm = /(-?\\d+|infinite)\\s+(-?\\d+|infinite)/.exec(rule.range);\n          if (rm != null) {\n            rangeLo = rm[1] === \"infinite\" ? -Infinity : parseInt(rm[1], 10);\n            rangeHi = rm[2] === \"infinite\" ? Infinity : parseInt(rm[2], 10);\n          }\n        }\n        const fallback = rule.fallback || \"decimal\";\n        counterStyles[name] = { system: sys, symbols, additiveSymbols, prefix, suffix, negPrefix, negSuffix, padLen, padSym, rangeLo, rangeHi, fallback, extendsName };\n      } else if (rule.cssRules) {\n        _walkRulesForCounterStyles(rule.cssRules);\n      }\n    }\n  }\n  return (doc) => {\n    const _doc = doc || document;\n    for (const sheet of Array.from(_doc.styleSheets)) {\n      try {\n        _walkRulesForCounterStyles(sheet.cssRules);\n      } catch (e) {\n      }\n    }\n  };\n};\n\n// src/capture/svg-affine-freeze.ts\nfunction isFiniteSvgAffine(matrix) {\n  return matrix != null && Number.isFinite(matrix.a) && Number.isFinite(matrix.b) && Number.isFinite(matrix.c) && Number.isFinite(matrix.d) && Number.isFinite(matrix.e) && Number.isFinite(matrix.f);\n}\nfunction multiplySvgAffine(left, right) {\n  return {\n    a: left.a * right.a + left.c * right.b,\n    b: left.b * right.a + left.d * right.b,\n    c: left.a * right.c + left.c * right.d,\n    d: left.b * right.c + left.d * right.d,\n    e: left.a * right.e + left.c * right.f + left.e,\n    f: left.b * right.e + left.d * right.f + left.f\n  };\n}\nfunction invertSvgAffine(matrix) {\n  if (!isFiniteSvgAffine(matrix)) return null;\n  const determinant = matrix.a * matrix.d - matrix.b * matrix.c;\n  if (!Number.isFinite(determinant) || determinant === 0) return null;\n  const inverse = {\n    a: matrix.d / determinant,\n    b: -matrix.b / determinant,\n    c: -matrix.c / determinant,\n    d: matrix.a / determinant,\n    e: (matrix.c * matrix.f - matrix.d * matrix.e) / determinant,\n    f: (matrix.b * matrix.e - matrix.a * matrix.f) / determinant\n  };\n  return isFiniteSvgAffine(inverse) ? inverse : null;\n}\nfunction deriveSvgAffineFreeze(usedCtm, parentCtm, neutralCtm) {\n  if (!isFiniteSvgAffine(usedCtm) || !isFiniteSvgAffine(parentCtm) || !isFiniteSvgAffine(neutralCtm)) {\n    return null;\n  }\n  const parentInverse = invertSvgAffine(parentCtm);\n  if (parentInverse == null) return null;\n  const usedLocal = multiplySvgAffine(parentInverse, usedCtm);\n  const neutralLocal = multiplySvgAffine(parentInverse, neutralCtm);\n  const neutralInverse = invertSvgAffine(neutralLocal);\n  if (neutralInverse == null) return null;\n  const frozen = multiplySvgAffine(usedLocal, neutralInverse);\n  if (invertSvgAffine(usedLocal) == null || invertSvgAffine(frozen) == null) return null;\n  return { usedLocal, neutralLocal, frozen };\n}\nfunction serializeSvgNumber(value) {\n  return Object.is(value, -0) ? \"0\" : String(value);\n}\nfunction serializeSvgAffine(matrix) {\n  if (!isFiniteSvgAffine(matrix)) return null;\n  return `matrix(${serializeSvgNumber(matrix.a)} ${serializeSvgNumber(matrix.b)} ${serializeSvgNumber(matrix.c)} ${serializeSvgNumber(matrix.d)} ${serializeSvgNumber(matrix.e)} ${serializeSvgNumber(matrix.f)})`;\n}\nfunction svgAffineMaxPointError(left, right, points = [[0, 0], [1, 0], [0, 1]]) {\n  if (!isFiniteSvgAffine(left) || !isFiniteSvgAffine(right)) return Number.POSITIVE_INFINITY;\n  let max = 0;\n  for (const [x, y] of points) {\n    const lx = left.a * x + left.c * y + left.e;\n    const ly = left.b * x + left.d * y + left.f;\n    const rx = right.a * x + right.c * y + right.e;\n    const ry = right.b * x + right.d * y + right.f;\n    max = Math.max(max, Math.hypot(lx - rx, ly - ry));\n  }\n  return max;\n}\n\n// src/capture/script/walker/inline-svg.ts\nvar captureInlineSvg = (el, cs, warn, sel) => {\n  const svgFill = cs.fill;\n  const svgStroke = cs.stroke;\n  const svgStrokeWidth = cs.strokeWidth;\n  const svgFontFamily = cs.fontFamily;\n  const clone = el.cloneNode(true);\n  var _affineFreezeFailure = null;\n  const _affineFreezeRecords = [];\n  const _frozenByClone = /* @__PURE__ */ new WeakMap();\n  const _transformProperties = /* @__PURE__ */ new Set([\n    \"transform\",\n    \"transform-origin\",\n    \"transform-box\",\n    \"translate\",\n    \"rotate\",\n    \"scale\",\n    \"offset\",\n    \"offset-path\",\n    \"offset-distance\",\n    \"offset-position\",\n    \"offset-anchor\",\n    \"offset-rotate\"\n  ]);\n  const _matrixFrom = (matrix) => matrix == null ? null : {\n    a: Number(matrix.a),\n    b: Number(matrix.b),\n    c: Number(matrix.c),\n    d: Number(matrix.d),\n    e: Number(matrix.e),\n    f: Number(matrix.f)\n  };\n  const _nearestCtmParent = (node) => {\n    var parent = node.parentElement;\n    while (parent != null && typeof parent.getCTM !== \"function\") parent = parent.parentElement;\n    return parent;\n  };\n  const _hasTransformSignal = (node, style) => {\n    if (node.hasAttribute && node.hasAttribute(\"transform\")) return true;\n    for (const prop of [\"transform\", \"translate\", \"rotate\", \"scale\", \"offset-path\"]) {\n      const value = style.getPropertyValue(prop).trim();\n      if (value !== \"\" && value !== \"none\") return true;\n    }\n    for (const child of node.children || []) {\n      const name = (child.localName || \"\").toLowerCase();\n      const attribute = (child.getAttribute && child.getAttribute(\"attributeName\") || \"\").toLowerCase();\n      if (name === \"animatemotion\" || name === \"animatetransform\" || (name === \"animate\" || name === \"set\") && attribute === \"transform\") return true;\n    }\n    return false;\n  };\n  const _neutralizeProbeTransform = (probe) => {\n    if (probe.style == null) return;\n    probe.style.setProperty(\"transform\", \"none\", \"important\");\n    probe.style.setProperty(\"translate\", \"none\", \"important\");\n    probe.style.setProperty(\"rotate\", \"none\", \"important\");\n    probe.style.setProperty(\"scale\", \"none\", \"important\");\n    probe.style.setProperty(\"offset-path\", \"none\", \"important\");\n    probe.style.setProperty(\"animation\", \"none\", \"important\");\n    probe.style.setProperty(\"transition\", \"none\", \"important\");\n    probe.style.setProperty(\"visibility\", \"hidden\", \"important\");\n    probe.style.setProperty(\"opacity\", \"0\", \"important\");\n    probe.style.setProperty(\"pointer-events\", \"none\", \"important\");\n  };\n  const _cleanCloneTransformOwner = (node, serialized) => {\n    node.setAttribute(\"transform\", serialized);\n    if (node.style != null) {\n      for (const prop of _transformProperties) node.style.removeProperty(prop);\n    }\n  };\n  const _freezeUsedAffine = (origNode, cloneNode, ocs) => {\n    if (_affineFreezeFailure != null || !_hasTransformSignal(origNode, ocs)) return;\n    if (typeof origNode.getCTM !== \"function\") {\n      _affineFreezeFailure = \"transformed SVG node does not expose getCTM()\";\n      return;\n    }\n    const parent = _nearestCtmParent(origNode);\n    if (parent == null || typeof parent.getCTM !== \"function\") {\n      _affineFreezeFailure = \"transformed SVG node has no correlatable SVG parent CTM\";\n      return;\n    }\n    var usedCtm = null;\n    var parentCtm = null;\n    try {\n      usedCtm = _matrixFrom(origNode.getCTM());\n      parentCtm = _matrixFrom(parent.getCTM());\n    } catch (e) {\n      _affineFreezeFailure = \"Blink-used parent-relative affine matrix could not be read\";\n      return;\n    }\n    var probe = null;\n    var neutralCtm = null;\n    try {\n      probe = cloneNode.cloneNode(false);\n      _neutralizeProbeTransform(probe);\n      if (probe.setAttribute) probe.setAttribute(\"aria-hidden\", \"true\");\n      origNode.parentElement.appendChild(probe);\n      neutralCtm = _matrixFrom(probe.getCTM && probe.getCTM());\n    } catch (e) {\n      neutralCtm = null;\n    } finally {\n      if (probe != null && probe.remove) probe.remove();\n    }\n    const freeze = usedCtm != null && parentCtm != null && neutralCtm != null ? deriveSvgAffineFreeze(usedCtm, parentCtm, neutralCtm) : null;\n    const serialized = freeze == null ? null : serializeSvgAffine(freeze.frozen);\n    if (freeze == null || serialized == null) {\n      _affineFreezeFailure = \"Blink-used parent-relative affine matrix was unavailable or singular\";\n      return;\n    }\n    _cleanCloneTransformOwner(cloneNode, serialized);\n    var points = [[0, 0], [1, 0], [0, 1]];\n    try {\n      const bbox = origNode.getBBox();\n      if (bbox != null && [bbox.x, bbox.y, bbox.width, bbox.height].every(Number.isFinite)) {\n        points = [[bbox.x, bbox.y], [bbox.x + bbox.width, bbox.y], [bbox.x, bbox.y + bbox.height], [bbox.x + bbox.width, bbox.y + bbox.height]];\n      }\n    } catch (e) {\n    }\n    const record = { cloneNode, expected: freeze.usedLocal, frozen: freeze.frozen, points, serialized, skip: false };\n    _affineFreezeRecords.push(record);\n    _frozenByClone.set(cloneNode, record);\n  };\n  const _unresolvedCssExprRe = /\\b(?:var|calc|env|attr)\\s*\\(/;\n  function _isUnresolvedCssExpr(v) {\n    return v != null && _unresolvedCssExprRe.test(v);\n  }\n  function _hasConcreteAttr(node, attr) {\n    return node.hasAttribute(attr) && !_isUnresolvedCssExpr(node.getAttribute(attr));\n  }\n  if (svgFill && svgFill !== \"\" && !_hasConcreteAttr(el, \"fill\")) clone.setAttribute(\"fill\", svgFill);\n  if (svgStroke && svgStroke !== \"\" && svgStroke !== \"none\" && !_hasConcreteAttr(el, \"stroke\")) clone.setAttribute(\"stroke\", svgStroke);\n  if (svgStrokeWidth && svgStrokeWidth !== \"\" && !_hasConcreteAttr(el, \"stroke-width\")) clone.setAttribute(\"stroke-width\", svgStrokeWidth);\n  if (svgFontFamily && svgFontFamily !== \"\" && !el.hasAttribute(\"font-family\")) {\n    clone.setAttribute(\"font-family\", svgFontFamily);\n  }\n  const svgOverflow = cs.getPropertyValue(\"overflow\").trim();\n  if (svgOverflow !== \"\") clone.style.setProperty(\"overflow\", svgOverflow);\n  const _bakeSvgAttrs = [\"fill\", \"stroke\", \"stroke-width\", \"stroke-dasharray\", \"stroke-linecap\", \"stroke-linejoin\", \"stroke-opacity\", \"fill-opacity\", \"opacity\"];\n  const _svgGeomAttrsByTag = {\n    circle: [\"cx\", \"cy\", \"r\"],\n    ellipse: [\"cx\", \"cy\", \"rx\", \"ry\"],\n    rect: [\"x\", \"y\", \"width\", \"height\", \"rx\", \"ry\"],\n    image: [\"x\", \"y\", \"width\", \"height\"],\n    foreignobject: [\"x\", \"y\", \"width\", \"height\"],\n    use: [\"x\", \"y\", \"width\", \"height\"],\n    svg: [\"x\", \"y\", \"width\", \"height\"],\n    path: [\"d\"]\n  };\n  const _bakeSvgMaskProps = [\"mask-image\", \"mask-origin\", \"mask-clip\", \"mask-position\", \"mask-size\", \"mask-repeat\", \"mask-composite\", \"mask-mode\"];\n  const _walkBake = (origNode, cloneNode) => {\n    if (origNode.nodeType !== 1) return;\n    const ns = origNode.namespaceURI;\n    if (ns === \"http://www.w3.org/2000/svg\" && origNode !== el) {\n      const ocs = window.getComputedStyle(origNode);\n      const _usesCurrentColor = (camel) => {\n        const baseVal = ocs[camel];\n        if (baseVal !== ocs.color) return false;\n        const savedColor = origNode.style.color;\n        origNode.style.color = \"rgb(1, 2, 3)\";\n        const probeCs = window.getComputedStyle(origNode);\n        const matches = probeCs[camel] === probeCs.color;\n        origNode.style.color = savedColor;\n        return matches;\n      };\n      for (const attr of _bakeSvgAttrs) {\n        const camel = attr.replace(/-([a-z])/g, (_, c) => c.toUpperCase());\n        const val = ocs[camel];\n        if (val != null && val !== \"\" && !_hasConcreteAttr(origNode, attr)) {\n          const preserveCurrent = (attr === \"fill\" || attr === \"stroke\") && _usesCurrentColor(camel);\n          cloneNode.setAttribute(attr, preserveCurrent ? \"currentColor\" : val);\n        }\n      }\n      const geomAttrs = _svgGeomAttrsByTag[(origNode.localName || \"\").toLowerCase()] || [];\n      for (const gattr of geomAttrs) {\n        let smilOwnsValue = false;\n        for (const child of origNode.children) {\n          if ((child.localName || \"\").toLowerCase() === \"animate\" && child.getAttribute(\"attributeName\") === gattr) {\n            smilOwnsValue = true;\n            break;\n          }\n        }\n        if (smilOwnsValue) continue;\n        let gval = ocs.getPropertyValue(gattr);\n        if (gval == null) continue;\n        gval = gval.trim();\n        if (gval === \"\" || gval === \"auto\" || gval === \"none\" || gval === \"normal\") continue;\n        if (gattr === \"d\") {\n          const m = /^path\\(\\s*(?:\"([^\"]*)\"|'([^']*)')\\s*\\)$/.exec(gval);\n          if (m) gval = m[1] != null ? m[1] : m[2];\n          else continue;\n        } else if (/^-?\\d+(?:\\.\\d+)?px$/.test(gval)) {\n          gval = gval.slice(0, -2);\n        }\n        const sourceVal = origNode.getAttribute(gattr);\n        if (sourceVal != null && !_isUnresolvedCssExpr(sourceVal) && sourceVal.trim() === gval) continue;\n        cloneNode.setAttribute(gattr, gval);\n      }\n      const computedClipPath = ocs.getPropertyValue(\"clip-path\").trim();\n      if (computedClipPath !== \"\" && computedClipPath !== \"none\") {\n        cloneNode.style.setProperty(\"clip-path\", computedClipPath);\n      }\n      const computedFilter = ocs.getPropertyValue(\"filter\").trim();\n      if (computedFilter !== \"\" && computedFilter !== \"none\") {\n        cloneNode.style.setProperty(\"filter\", computedFilter);\n      }\n      const computedOverflow = ocs.getPropertyValue(\"overflow\").trim();\n      if (computedOverflow !== \"\" && computedOverflow !== \"visible\") {\n        cloneNode.style.setProperty(\"overflow\", computedOverflow);\n      }\n      const computedMaskImage = ocs.getPropertyValue(\"mask-image\").trim();\n      if (computedMaskImage !== \"\" && computedMaskImage !== \"none\") {\n        for (const prop of _bakeSvgMaskProps) {\n          const value = ocs.getPropertyValue(prop).trim();\n          if (value !== \"\") cloneNode.style.setProperty(prop, value);\n        }\n      }\n      if (origNode.tagName && origNode.tagName.toLowerCase() === \"mask\") {\n        const mt = ocs.maskType || ocs.getPropertyValue(\"mask-type\");\n        if (mt === \"alpha\" || mt === \"luminance\") {\n          if (!origNode.hasAttribute(\"mask-type\") || origNode.getAttribute(\"mask-type\") !== mt) {\n            cloneNode.setAttribute(\"mask-type\", mt);\n          }\n        }\n      }\n      _freezeUsedAffine(origNode, cloneNode, ocs);\n    }\n    const oChildren = origNode.children;\n    const cChildren = cloneNode.children;\n    const n = Math.min(oChildren.length, cChildren.length);\n    for (let i = 0; i < n; i++) _walkBake(oChildren[i], cChildren[i]);\n  };\n  _walkBake(el, clone);\n  const _svgNS = \"http://www.w3.org/2000/svg\";\n  const _xlinkNS = \"http://www.w3.org/1999/xlink\";\n  const _resolveUseRefs = (root, depth) => {\n    if (depth > 5) return;\n    var uses = root.querySelectorAll ? root.querySelectorAll(\"use\") : [];\n    for (var ui = 0; ui < uses.length; ui++) {\n      var useEl = uses[ui];\n      var href = useEl.getAttribute(\"href\");\n      if (href == null || href === \"\") href = useEl.getAttributeNS(_xlinkNS, \"href\") || \"\";\n      if (href.charAt(0) !== \"#\") continue;\n      var targetId = href.slice(1);\n      var target = document.getElementById(targetId);\n      if (target == null) continue;\n      if (target.namespaceURI !== _svgNS) continue;\n      if (typeof target.getAnimations === \"function\") {\n        try {\n          var anims = target.getAnimations({ subtree: true });\n          if (anims != null && anims.length > 0) {\n            warn(sel, \"inline-svg\", '<use href=\"#' + targetId + '\"> resolved to a CSS-animated subtree; the inlined SVG carries the t=0 computed paint state (no animation in the output)');\n          }\n        } catch (e) {\n        }\n      }\n      var ux = parseFloat(useEl.getAttribute(\"x\") || \"0\") || 0;\n      var uy = parseFloat(useEl.getAttribute(\"y\") || \"0\") || 0;\n      var uw = useEl.getAttribute(\"width\");\n      var uh = useEl.getAttribute(\"height\");\n      var targetTag = target.tagName.toLowerCase();\n      var replacement;\n      if (targetTag === \"symbol\") {\n        var vb = target.getAttribute(\"viewBox\") || \"\";\n        var par = target.getAttribute(\"preserveAspectRatio\") || \"\";\n        var innerSvg = document.createElementNS(_svgNS, \"svg\");\n        if (ux !== 0) innerSvg.setAttribute(\"x\", String(ux));\n        if (uy !== 0) innerSvg.setAttribute(\"y\", String(uy));\n        if (uw != null) innerSvg.setAttribute(\"width\", uw);\n        if (uh != null) innerSvg.setAttribute(\"height\", uh);\n        if (vb !== \"\") innerSvg.setAttribute(\"viewBox\", vb);\n        if (par !== \"\") innerSvg.setAttribute(\"preserveAspectRatio\", par);\n        for (var ci = 0; ci < target.children.length; ci++) {\n          var clonedChild = target.children[ci].cloneNode(true);\n          innerSvg.appendChild(clonedChild);\n          _walkBake(target.children[ci], clonedChild);\n        }\n        var useTransformAttrSym = useEl.getAttribute(\"transform\") || \"\";\n        if (useTransformAttrSym !== \"\") {\n          replacement = document.createElementNS(_svgNS, \"g\");\n          replacement.setAttribute(\"transform\", useTransformAttrSym);\n          replacement.appendChild(innerSvg);\n        } else {\n          replacement = innerSvg;\n        }\n      } else {\n        replacement = document.createElementNS(_svgNS, \"g\");\n        var useTransformAttr = useEl.getAttribute(\"transform\") || \"\";\n        var translatePart = ux !== 0 || uy !== 0 ? \"translate(\" + ux + \",\" + uy + \")\" : \"\";\n        var composedTransform = (useTransformAttr + \" \" + translatePart).trim();\n        if (composedTransform !== \"\") {\n          replacement.setAttribute(\"transform\", composedTransform);\n        }\n        var clonedTarget = target.cloneNode(true);\n        if (clonedTarget.removeAttribute) clonedTarget.removeAttribute(\"id\");\n        replacement.appendChild(clonedTarget);\n        _walkBake(target, clonedTarget);\n        if (clonedTarget.tagName && clonedTarget.tagName.toLowerCase() === \"svg\" && clonedTarget.removeAttribute) {\n          if (!_hasConcreteAttr(target, \"width\") && /^0(?:\\.0+)?$/.test(clonedTarget.getAttribute(\"width\") || \"\")) {\n            clonedTarget.removeAttribute(\"width\");\n          }\n          if (!_hasConcreteAttr(target, \"height\") && /^0(?:\\.0+)?$/.test(clonedTarget.getAttribute(\"height\") || \"\")) {\n            clonedTarget.removeAttribute(\"height\");\n          }\n        }\n      }\n      const useFreeze = _frozenByClone.get(useEl);\n      if (useFreeze != null) {\n        useFreeze.skip = true;\n        var replacementExpected = useFreeze.frozen;\n        if (targetTag !== \"symbol\" && (ux !== 0 || uy !== 0)) {\n          replacementExpected = multiplySvgAffine(replacementExpected, {\n            a: 1,\n            b: 0,\n            c: 0,\n            d: 1,\n            e: ux,\n            f: uy\n          });\n        }\n        const replacementSerialized = serializeSvgAffine(replacementExpected);\n        if (replacementSerialized == null) {\n          _affineFreezeFailure = _affineFreezeFailure || \"inlined use transform could not be serialized\";\n        } else {\n          replacement.setAttribute(\"transform\", replacementSerialized);\n        }\n        _affineFreezeRecords.push({\n          cloneNode: replacement,\n          expected: replacementExpected,\n          frozen: replacementExpected,\n          points: useFreeze.points,\n          serialized: replacement.getAttribute(\"transform\") || \"\",\n          skip: false\n        });\n      }\n      var _useAttrs = [\"fill\", \"stroke\", \"stroke-width\", \"opacity\", \"class\", \"style\"];\n      for (var ai = 0; ai < _useAttrs.length; ai++) {\n        var av = useEl.getAttribute(_useAttrs[ai]);\n        if (av != null && av !== \"\") replacement.setAttribute(_useAttrs[ai], av);\n      }\n      useEl.parentNode.replaceChild(replacement, useEl);\n      _resolveUseRefs(replacement, depth + 1);\n    }\n  };\n  _resolveUseRefs(clone, 0);\n  for (const animation of Array.from(clone.querySelectorAll ? clone.querySelectorAll(\"animateMotion, animateTransform, animate[attributeName], set[attributeName]\") : [])) {\n    const name = (animation.localName || \"\").toLowerCase();\n    const attribute = (animation.getAttribute(\"attributeName\") || \"\").toLowerCase();\n    if (name === \"animatemotion\" || name === \"animatetransform\" || attribute === \"transform\") animation.remove();\n  }\n  const _sanitizeClonedTransformCss = () => {\n    for (const styleNode of Array.from(clone.querySelectorAll ? clone.querySelectorAll(\"style\") : [])) {\n      const cssText = styleNode.textContent || \"\";\n      if (!/(?:transform|translate|rotate|scale|offset(?:-|\\s*:))/i.test(cssText)) continue;\n      if (/@import\\b/i.test(cssText) || typeof CSSStyleSheet !== \"function\") {\n        _affineFreezeFailure = _affineFreezeFailure || \"transform-bearing cloned stylesheet could not be inspected\";\n        continue;\n      }\n      try {\n        const sheet = new CSSStyleSheet();\n        sheet.replaceSync(cssText);\n        const cleanRules = (rules) => {\n          for (const rule of Array.from(rules || [])) {\n            if (rule.style != null) {\n              for (const prop of Array.from(rule.style)) {\n                const normalized = prop.toLowerCase().replace(/^-webkit-/, \"\");\n                if (_transformProperties.has(normalized)) rule.style.removeProperty(prop);\n              }\n            }\n            if (rule.cssRules != null) cleanRules(rule.cssRules);\n          }\n        };\n        cleanRules(sheet.cssRules);\n        styleNode.textContent = Array.from(sheet.cssRules).map((rule) => rule.cssText).join(\"\\n\");\n      } catch (e) {\n        _affineFreezeFailure = _affineFreezeFailure || \"transform-bearing cloned stylesheet failed CSSOM normalization\";\n      }\n    }\n  };\n  _sanitizeClonedTransformCss();\n  const _validateFrozenAffines = () => {\n    if (_affineFreezeFailure != null || _affineFreezeRecords.length === 0) return;\n    const host = document.createElement(\"div\");\n    host.setAttribute(\"aria-hidden\", \"true\");\n    host.style.setProperty(\"all\", \"initial\", \"important\");\n    host.style.setProperty(\"position\", \"fixed\", \"important\");\n    host.style.setProperty(\"left\", \"-100000px\", \"important\");\n    host.style.setProperty(\"top\", \"-100000px\", \"important\");\n    host.style.setProperty(\"visibility\", \"hidden\", \"important\");\n    var shadow = null;\n    try {\n      shadow = host.attachShadow({ mode: \"closed\" });\n      shadow.appendChild(clone);\n      (document.body || document.documentElement).appendChild(host);\n      for (const record of _affineFreezeRecords) {\n        if (record.skip || !record.cloneNode.isConnected) continue;\n        const parent = _nearestCtmParent(record.cloneNode);\n        const parentCtm = _matrixFrom(parent && parent.getCTM && parent.getCTM());\n        const cloneCtm = _matrixFrom(record.cloneNode.getCTM && record.cloneNode.getCTM());\n        const parentInverse = parentCtm == null ? null : invertSvgAffine(parentCtm);\n        const actual = parentInverse == null || cloneCtm == null ? null : multiplySvgAffine(parentInverse, cloneCtm);\n        if (actual == null || svgAffineMaxPointError(actual, record.expected, record.points) > 1 / 256) {\n          _affineFreezeFailure = \"serialized SVG affine did not correlate with Blink-used local geometry\";\n          break;\n        }\n      }\n    } catch (e) {\n      _affineFreezeFailure = \"serialized SVG affine could not be validated in an isolated clone\";\n    } finally {\n      host.remove();\n    }\n  };\n  _validateFrozenAffines();\n  var _hostColor = cs.color;\n  var _substCurrentColor = (node) => {\n    if (node.nodeType !== 1) return;\n    var fa = node.getAttribute && node.getAttribute(\"fill\");\n    if (fa != null && /^currentcolor$/i.test(fa)) node.setAttribute(\"fill\", _hostColor);\n    var sa = node.getAttribute && node.getAttribute(\"stroke\");\n    if (sa != null && /^currentcolor$/i.test(sa)) node.setAttribute(\"stroke\", _hostColor);\n    for (var ci = 0; ci < node.children.length; ci++) _substCurrentColor(node.children[ci]);\n  };\n  _substCurrentColor(clone);\n  if (_affineFreezeFailure != null) {\n    warn(sel, \"inline-svg\", _affineFreezeFailure + \"; promoted the outer inline SVG to Chromium raster ownership\");\n  }\n  return { content: clone.outerHTML, affineFreezeFailed: _affineFreezeFailure != null };\n};\n\n// src/capture/script/walker/fieldset-legend.ts\nvar computeFieldsetLegendBox = (el, tag, rect, vp) => {\n  let fieldsetLegendNotch;\n  let fsX = rect.left - vp.x;\n  let fsY = rect.top - vp.y;\n  let fsW = rect.width;\n  let fsH = rect.height;\n  if (tag === \"fieldset\") {\n    for (let i = 0; i < el.children.length; i++) {\n      const ch = el.children[i];\n      if (ch.tagName.toLowerCase() !== \"legend\") continue;\n      const lr = ch.getBoundingClientRect();\n      if (lr.height > 0 && lr.width > 0 && Math.abs(lr.top - rect.top) < 2) {\n        const inset = lr.height / 2;\n        fsY = rect.top - vp.y + inset;\n        fsH = rect.height - inset;\n        fieldsetLegendNotch = { x: lr.left - vp.x, y: lr.top - vp.y, w: lr.width, h: lr.height };\n      }\n      break;\n    }\n  }\n  return { x: fsX, y: fsY, width: fsW, height: fsH, fieldsetLegendNotch };\n};\n\n// src/capture/script/walker/fragmentation.ts\nvar detectInlineFragments = (el, cs, vp, captured) => {\n  var _ownCount = parseInt(cs.columnCount, 10);\n  var _ownColumnWidth = parseFloat(cs.columnWidth || \"\");\n  var _ownGap = parseFloat(cs.columnGap || \"\");\n  if (!Number.isFinite(_ownGap)) _ownGap = parseFloat(cs.fontSize || \"16\") || 16;\n  var _ruleWidth = parseFloat(cs.columnRuleWidth || \"0\") || 0;\n  var _ruleStyle = cs.columnRuleStyle || \"none\";\n  if (_ruleWidth > 0 && _ruleStyle !== \"none\" && _ruleStyle !== \"hidden\") {\n    var _box = el.getBoundingClientRect();\n    var _contentLeft = _box.left + (parseFloat(cs.borderLeftWidth) || 0) + (parseFloat(cs.paddingLeft) || 0);\n    var _contentRight = _box.right - (parseFloat(cs.borderRightWidth) || 0) - (parseFloat(cs.paddingRight) || 0);\n    var _contentTop = _box.top + (parseFloat(cs.borderTopWidth) || 0) + (parseFloat(cs.paddingTop) || 0);\n    var _contentBottom = _box.bottom - (parseFloat(cs.borderBottomWidth) || 0) - (parseFloat(cs.paddingBottom) || 0);\n    var _contentWidth = _contentRight - _contentLeft;\n    if (!(Number.isFinite(_ownCount) && _ownCount > 1) && Number.isFinite(_ownColumnWidth) && _ownColumnWidth > 0) {\n      _ownCount = Math.max(1, Math.floor((_contentWidth + _ownGap) / (_ownColumnWidth + _ownGap)));\n    }\n    if (Number.isFinite(_ownCount) && _ownCount > 1 && _contentWidth > 0 && _contentBottom > _contentTop) {\n      var _rows = [];\n      var _rowStart = _contentTop;\n      for (var _si = 0; _si < el.children.length; _si++) {\n        var _span = el.children[_si];\n        var _spanCs = window.getComputedStyle(_span);\n        if (_spanCs.columnSpan !== \"all\") continue;\n        var _spanRect = _span.getBoundingClientRect();\n        var _spanTop = _spanRect.top - (parseFloat(_spanCs.marginTop) || 0);\n        var _spanBottom = _spanRect.bottom + (parseFloat(_spanCs.marginBottom) || 0);\n        if (_spanTop > _rowStart) _rows.push([_rowStart, Math.min(_spanTop, _contentBottom)]);\n        _rowStart = Math.max(_rowStart, _spanBottom);\n      }\n      if (_contentBottom > _rowStart) _rows.push([_rowStart, _contentBottom]);\n      var _columnWidth = (_contentWidth - _ownGap * (_ownCount - 1)) / _ownCount;\n      var _rules = [];\n      for (var _ri = 1; _ri < _ownCount; _ri++) {\n        var _ruleX = _contentLeft + _ri * _columnWidth + (_ri - 0.5) * _ownGap - vp.x;\n        for (var _rsi = 0; _rsi < _rows.length; _rsi++) {\n          if (_rows[_rsi][1] <= _rows[_rsi][0]) continue;\n          _rules.push({\n            x: _ruleX,\n            y1: _rows[_rsi][0] - vp.y,\n            y2: _rows[_rsi][1] - vp.y,\n            width: _ruleWidth,\n            color: cs.columnRuleColor,\n            style: _ruleStyle\n          });\n        }\n      }\n      if (_rules.length > 0) captured.columnRules = _rules;\n    }\n  }\n  var _bgC = captured.styles.backgroundColor;\n  var _hasBg = _bgC != null && _bgC !== \"\" && _bgC !== \"transparent\" && _bgC !== \"rgba(0, 0, 0, 0)\";\n  var _hasBgImage = captured.styles.backgroundImage != null && captured.styles.backgroundImage !== \"\" && captured.styles.backgroundImage !== \"none\";\n  var _hasMaskImage = captured.styles.maskImage != null && captured.styles.maskImage !== \"\" && captured.styles.maskImage !== \"none\";\n  var _btw = parseFloat(captured.styles.borderTopWidth || \"0\") || 0;\n  var _brw = parseFloat(captured.styles.borderRightWidth || \"0\") || 0;\n  var _bbw = parseFloat(captured.styles.borderBottomWidth || \"0\") || 0;\n  var _blw = parseFloat(captured.styles.borderLeftWidth || \"0\") || 0;\n  var _hasBorder = _btw > 0 || _brw > 0 || _bbw > 0 || _blw > 0;\n  var _hasPaint = _hasBg || _hasBgImage || _hasBorder || _hasMaskImage;\n  var _isInline = cs.display === \"inline\";\n  var _isBlockLevel = !_isInline && (cs.display === \"block\" || cs.display === \"list-item\" || cs.display === \"flex\" || cs.display === \"grid\" || cs.display === \"flow-root\" || cs.display === \"inline-block\" || cs.display === \"inline-flex\" || cs.display === \"inline-grid\");\n  var _inMultiColumn = false;\n  if (_isBlockLevel && _hasPaint) {\n    var _a = el.parentElement;\n    while (_a != null) {\n      var _ac = window.getComputedStyle(_a);\n      var _cc = parseInt(_ac.columnCount, 10);\n      var _cw = _ac.columnWidth;\n      if (Number.isFinite(_cc) && _cc > 1 || _cw != null && _cw !== \"auto\" && _cw !== \"\" && _cw !== \"normal\") {\n        _inMultiColumn = true;\n        break;\n      }\n      if (_a === document.body) break;\n      _a = _a.parentElement;\n    }\n  }\n  if (_hasPaint && (_isInline || _inMultiColumn)) {\n    var _cr = el.getClientRects();\n    if (_cr != null && _cr.length > 1) {\n      var _frags = [];\n      for (var _ci = 0; _ci < _cr.length; _ci++) {\n        var _f = _cr[_ci];\n        if (_f.width <= 0 || _f.height <= 0) continue;\n        _frags.push({\n          x: _f.left - vp.x,\n          y: _f.top - vp.y,\n          width: _f.width,\n          height: _f.height\n        });\n      }\n      if (_frags.length > 1) {\n        if (_hasBgImage) {\n          var _writingMode = String(cs.writingMode || \"horizontal-tb\").toLowerCase();\n          var _horizontalWriting = _writingMode === \"horizontal-tb\";\n          var _logicalSizes = [];\n          var _stitchedSize = 0;\n          for (var _gsi = 0; _gsi < _frags.length; _gsi++) {\n            var _logicalSize = _isInline ? _horizontalWriting ? _frags[_gsi].width : _frags[_gsi].height : _horizontalWriting ? _frags[_gsi].height : _frags[_gsi].width;\n            _logicalSizes.push(_logicalSize);\n            _stitchedSize += _logicalSize;\n          }\n          var _consumed = 0;\n          for (var _gfi = 0; _gfi < _frags.length; _gfi++) {\n            var _gf = _frags[_gfi];\n            var _physicalOffsetX = 0;\n            var _physicalOffsetY = 0;\n            if (_isInline) {\n              var _inlineOffset = cs.direction === \"rtl\" ? _stitchedSize - _consumed - _logicalSizes[_gfi] : _consumed;\n              if (_horizontalWriting) _physicalOffsetX = _inlineOffset;\n              else _physicalOffsetY = _inlineOffset;\n            } else if (_horizontalWriting) {\n              _physicalOffsetY = _consumed;\n            } else if (_writingMode === \"vertical-rl\" || _writingMode === \"sideways-rl\") {\n              _physicalOffsetX = _stitchedSize - _consumed - _logicalSizes[_gfi];\n            } else {\n              _physicalOffsetX = _consumed;\n            }\n            _gf.backgroundOffsetInStitchedBox = {\n              x: _physicalOffsetX,\n              y: _physicalOffsetY\n            };\n            _gf.backgroundPositioningArea = {\n              x: _gf.x - _physicalOffsetX,\n              y: _gf.y - _physicalOffsetY,\n              width: _horizontalWriting ? _isInline ? _stitchedSize : _gf.width : _isInline ? _gf.width : _stitchedSize,\n              height: _horizontalWriting ? _isInline ? _gf.height : _stitchedSize : _isInline ? _stitchedSize : _gf.height\n            };\n            _consumed += _logicalSizes[_gfi];\n          }\n        }\n        captured.inlineFragments = _frags;\n        captured.fragmentAxis = _isInline ? \"inline\" : \"block\";\n      }\n    }\n  }\n};\n\n// src/capture/script/walker/lists-counters.ts\nvar createListsCountersHandler = ({ normColor, resolveCounterStyle, isCustomCounterStyle, measureFontMetrics }) => {\n  const captureListsCounters = (el, cs, tag) => {\n    const isListItem = cs.display != null && cs.display.includes(\"list-item\");\n    let listMarkerIntrinsic = void 0;\n    let listItemIndex = void 0;\n    let markerFirstLineDy = void 0;\n    let markerFirstLineHeight = void 0;\n    if (isListItem) {\n      try {\n        const liTop = el.getBoundingClientRect().top;\n        const range = document.createRange();\n        range.selectNodeContents(el);\n        const rects = range.getClientRects();\n        if (rects.length > 0) {\n          markerFirstLineDy = rects[0].top - liTop;\n          markerFirstLineHeight = rects[0].height;\n        }\n      } catch (e) {\n      }\n      if (cs.listStyleImage && cs.listStyleImage !== \"none\") {\n        const u = /^url\\((?:\"|')?([^\"')]+)/.exec(cs.listStyleImage);\n        if (u != null) {\n          const img = new Image();\n          img.src = u[1];\n          if (img.naturalWidth > 0) listMarkerIntrinsic = { w: img.naturalWidth, h: img.naturalHeight };\n        }\n      }\n      const parent = el.parentElement;\n      if (parent != null) {\n        if (tag === \"li\") {\n          const siblings = Array.from(parent.children).filter((c) => c.tagName.toLowerCase() === \"li\");\n          const parentTag = parent.tagName.toLowerCase();\n          const reversed = parentTag === \"ol\" && parent.hasAttribute(\"reversed\");\n          let start = 1;\n          if (parentTag === \"ol\" && parent.hasAttribute(\"start\")) start = parseInt(parent.getAttribute(\"start\"), 10) || 1;\n          if (reversed) start = siblings.length;\n          let cur = start;\n          for (const s of siblings) {\n            if (s.hasAttribute(\"value\")) cur = parseInt(s.getAttribute(\"value\"), 10) || cur;\n            if (s === el) {\n              listItemIndex = cur;\n              break;\n            }\n            cur += reversed ? -1 : 1;\n          }\n        } else {\n          let cur = 1;\n          for (const s of parent.children) {\n            const sd = window.getComputedStyle(s).display;\n            if (sd != null && sd.includes(\"list-item\")) {\n              if (s === el) {\n                listItemIndex = cur;\n                break;\n              }\n              cur += 1;\n            }\n          }\n        }\n      }\n    }\n    const markerCs = isListItem ? window.getComputedStyle(el, \"::marker\") : null;\n    let markerContent = markerCs ? markerCs.content : void 0;\n    if (isListItem && resolveCounterStyle != null && listItemIndex != null) {\n      const lsType = cs.listStyleType;\n      const isCustom = lsType != null && isCustomCounterStyle != null && isCustomCounterStyle(lsType);\n      const noAuthorContent = markerContent == null || markerContent === \"\" || markerContent === \"normal\";\n      if (isCustom && noAuthorContent) {\n        const resolved = resolveCounterStyle(lsType, listItemIndex);\n        if (resolved != null) {\n          markerContent = '\"' + resolved.replace(/\\\\/g, \"\\\\\\\\\").replace(/\"/g, '\\\\\"') + '\"';\n        }\n      }\n    }\n    return {\n      listMarkerIntrinsic,\n      listItemIndex,\n      markerColor: markerCs ? normColor(markerCs.color) : void 0,\n      markerFontWeight: markerCs ? markerCs.fontWeight : void 0,\n      markerFontSize: markerCs ? markerCs.fontSize : void 0,\n      markerFontAscent: markerCs ? measureFontMetrics(markerCs).ascent : void 0,\n      markerContent,\n      markerFontFamily: markerCs ? markerCs.fontFamily : void 0,\n      markerFirstLineDy,\n      markerFirstLineHeight\n    };\n  };\n  return { captureListsCounters };\n};\n\n// src/capture/script/walker/replaced-elements.ts\nvar createReplacedElementsHandler = ({ vp }) => {\n  let _replacedIdx = 0;\n  const handleReplacedElement = (el, cs, tag, rect, captured, bordersOnlyCell) => {\n    if (bordersOnlyCell || cs.display === \"none\" || rect.width <= 0 || rect.height <= 0) return;\n    const isCustomEl = tag.indexOf(\"-\") > 0;\n    const hasOpenShadow = isCustomEl && el.shadowRoot != null;\n    const customElNeedsSnapshot = isCustomEl && hasOpenShadow;\n    const iframeRecursed = tag === \"iframe\" && captured._iframeRecursed === true;\n    if (tag === \"iframe\" && !iframeRecursed || tag === \"canvas\" || tag === \"video\" || tag === \"object\" || tag === \"embed\" || customElNeedsSnapshot) {\n      const { left: bl, right: br, top: bt, bottom: bb } = sideWidths(cs, \"border\", \"Width\");\n      const pl = parseFloat(cs.paddingLeft) || 0;\n      const pr = parseFloat(cs.paddingRight) || 0;\n      const pt = parseFloat(cs.paddingTop) || 0;\n      const pb = parseFloat(cs.paddingBottom) || 0;\n      const cw = rect.width - bl - br - pl - pr;\n      const ch = rect.height - bt - bb - pt - pb;\n      if (cw > 0 && ch > 0) {\n        const rid = \"dr\" + _replacedIdx++;\n        el.setAttribute(\"data-domotion-rid\", rid);\n        captured.replacedSnapshot = {\n          x: rect.left - vp.x + bl + pl,\n          y: rect.top - vp.y + bt + pt,\n          width: cw,\n          height: ch,\n          rid\n        };\n      }\n    }\n    if (captured.replacedSnapshot != null || captured.imageSrc != null) return;\n    const ti = parseFloat(cs.textIndent) || 0;\n    const ovX = cs.overflowX === \"hidden\" || cs.overflow === \"hidden\";\n    const hasBgImage = hasCssValue(cs.backgroundImage);\n    const phark = ti <= -1e3;\n    const modern = ti < 0 && ovX && cs.whiteSpace === \"nowrap\";\n    if ((phark || modern) && hasBgImage) {\n      const rid = \"dr\" + _replacedIdx++;\n      el.setAttribute(\"data-domotion-rid\", rid);\n      const titleText = (el.getAttribute && el.getAttribute(\"aria-label\") || captured.text || \"\").trim();\n      captured.replacedSnapshot = {\n        x: rect.left - vp.x,\n        y: rect.top - vp.y,\n        width: rect.width,\n        height: rect.height,\n        rid\n      };\n      captured.imageReplacement = { titleText };\n      captured.styles.backgroundImage = void 0;\n      captured.text = \"\";\n      captured.textSegments = void 0;\n    }\n  };\n  return { handleReplacedElement };\n};\n\n// src/capture/script/walker/masks-clips.ts\nvar createMasksClipsHandler = ({ vp, warn }) => {\n  const maskDefs = /* @__PURE__ */ new Map();\n  const maskRasters = /* @__PURE__ */ new Map();\n  const clipPathDefs = /* @__PURE__ */ new Map();\n  let maskRasterIdx = 0;\n  const computeMaskIntrinsic = (el, cs) => {\n    const primed = el && el.__domotionMaskIntrinsic;\n    if (Array.isArray(primed)) return primed;\n    const maskImage = cs.maskImage || cs.webkitMaskImage || \"\";\n    if (maskImage === \"\" || maskImage === \"none\") return [];\n    const layers = [];\n    let depth = 0, start = 0;\n    for (let i = 0; i < maskImage.length; i++) {\n      const ch = maskImage[i];\n      if (ch === \"(\") depth++;\n      else if (ch === \")\") depth--;\n      else if (ch === \",\" && depth === 0) {\n        layers.push(maskImage.slice(start, i));\n        start = i + 1;\n      }\n    }\n    layers.push(maskImage.slice(start));\n    return layers.map((layer) => {\n      const url = extractCssUrl(layer);\n      if (url == null) return null;\n      const image = new Image();\n      image.src = url;\n      const w = image.naturalWidth || 0;\n      const h = image.naturalHeight || 0;\n      return w > 0 && h > 0 ? { w, h, ratio: w / h } : null;\n    });\n  };\n  const discoverMasks = (el, cs, sel) => {\n    if (!cs.mask || cs.mask === \"none\" || cs.mask === \"\") return;\n    const doc = el.ownerDocument || document;\n    const miSrc = cs.maskImage || cs.webkitMaskImage || \"\";\n    const fragMatch = /^url\\(\\s*(?:\"|')?#([^\"')\\s]+)(?:\"|')?\\s*\\)$/i.exec(miSrc);\n    if (fragMatch != null) {\n      const fragId = fragMatch[1];\n      if (!maskDefs.has(fragId)) {\n        const target = doc.getElementById(fragId);\n        if (target != null && target.tagName.toLowerCase() === \"mask\") {\n          maskDefs.set(fragId, { id: fragId, outerHTML: target.outerHTML });\n        } else {\n          warn(sel, \"mask\", 'mask-image fragment \"#' + fragId + '\" did not resolve to an inline <mask> element');\n        }\n      }\n      return;\n    }\n    const extFragMatch = /^url\\(\\s*(?:\"|')?[^\"')#]+#[^\"')\\s]+(?:\"|')?\\s*\\)$/i.exec(miSrc);\n    if (extFragMatch != null) {\n      warn(sel, \"mask\", 'external-file SVG mask-image fragment ref (url(\"./file.svg#id\")) could not be resolved \\u2014 element renders unmasked');\n      return;\n    }\n    const elementMatch = /^element\\(\\s*#([^)\\s]+)\\s*\\)$/i.exec(miSrc);\n    if (elementMatch != null) {\n      const refId = elementMatch[1];\n      if (maskRasters.has(refId)) return;\n      const refTarget = doc.getElementById(refId);\n      if (refTarget == null) {\n        warn(sel, \"mask\", \"mask-image: element(#\" + refId + \") target not found in document\");\n        return;\n      }\n      const refCs = window.getComputedStyle(refTarget);\n      if (refCs.display === \"none\" || refCs.visibility === \"hidden\") {\n        warn(sel, \"mask\", \"mask-image: element(#\" + refId + \") target is display:none / hidden \\u2014 emitting empty mask\");\n        maskRasters.set(refId, null);\n        return;\n      }\n      const refRect = refTarget.getBoundingClientRect();\n      if (refRect.width <= 0 || refRect.height <= 0) {\n        warn(sel, \"mask\", \"mask-image: element(#\" + refId + \") target has zero-area painted box \\u2014 emitting empty mask\");\n        maskRasters.set(refId, null);\n        return;\n      }\n      if (typeof refTarget.getAnimations === \"function\") {\n        try {\n          const anims = refTarget.getAnimations();\n          if (anims != null && anims.length > 0) {\n            warn(sel, \"mask\", \"mask-image: element(#\" + refId + \") target has \" + anims.length + \" active animation(s); the rasterized snapshot is t=0 only\");\n          }\n        } catch (e) {\n        }\n      }\n      const refRid = \"mr\" + maskRasterIdx++;\n      refTarget.setAttribute(\"data-domotion-rid\", refRid);\n      maskRasters.set(refId, {\n        id: refId,\n        rid: refRid,\n        width: refRect.width,\n        height: refRect.height,\n        rect: {\n          x: refRect.left - vp.x,\n          y: refRect.top - vp.y,\n          width: refRect.width,\n          height: refRect.height\n        }\n      });\n      return;\n    }\n    const supported = /^(?:repeating-)?(?:linear|radial)-gradient\\(/i.test(miSrc) || /^url\\(/i.test(miSrc);\n    if (!supported) {\n      warn(sel, \"mask\", \"non-gradient/non-url()/non-element() mask source \\u2014 not emitted\");\n    }\n  };\n  const discoverClipPaths = (el, cs, sel) => {\n    const cp = cs.clipPath;\n    if (!cp || cp === \"none\" || cp === \"\") return;\n    const doc = el.ownerDocument || document;\n    const cpShape = cp.replace(/\\b(?:content-box|padding-box|border-box|margin-box|fill-box|stroke-box|view-box)\\b/i, \"\").trim();\n    const fragMatch = /^url\\(\\s*(?:\"|')?#([^\"')\\s]+)(?:\"|')?\\s*\\)$/i.exec(cpShape);\n    if (fragMatch != null) {\n      const fragId = fragMatch[1];\n      if (!clipPathDefs.has(fragId)) {\n        const target = doc.getElementById(fragId);\n        if (target != null && target.tagName.toLowerCase() === \"clippath\") {\n          const units = (target.getAttribute(\"clipPathUnits\") || \"userSpaceOnUse\").toLowerCase();\n          clipPathDefs.set(fragId, {\n            id: fragId,\n            outerHTML: target.outerHTML,\n            clipPathUnits: units === \"objectboundingbox\" ? \"objectBoundingBox\" : \"userSpaceOnUse\"\n          });\n        } else {\n          warn(sel, \"clip-path\", 'clip-path fragment \"#' + fragId + '\" did not resolve to an inline <clipPath> element');\n        }\n      }\n      return;\n    }\n    const extFragMatch = /^url\\(\\s*(?:\"|')?[^\"')#]+#[^\"')\\s]+(?:\"|')?\\s*\\)$/i.exec(cpShape);\n    if (extFragMatch != null) {\n      warn(sel, \"clip-path\", 'external-file SVG fragment ref (url(\"./file.svg#id\")) could not be resolved \\u2014 element renders unclipped');\n    }\n  };\n  const filterDefs = /* @__PURE__ */ new Map();\n  let urlFilterRasterIdx = 0;\n  const filterContainsConvolveMatrix = (filter, seen) => {\n    if (filter == null || seen.has(filter)) return false;\n    seen.add(filter);\n    const descendants = filter.getElementsByTagName(\"*\");\n    for (let i = 0; i < descendants.length; i++) {\n      if ((descendants[i].localName || \"\").toLowerCase() === \"feconvolvematrix\") return true;\n    }\n    const href = filter.getAttribute(\"href\") || filter.getAttributeNS(\"http://www.w3.org/1999/xlink\", \"href\") || \"\";\n    if (!href.startsWith(\"#\")) return false;\n    const inherited = filter.ownerDocument.getElementById(href.slice(1));\n    return inherited != null && inherited.localName.toLowerCase() === \"filter\" && filterContainsConvolveMatrix(inherited, seen);\n  };\n  const discoverFilters = (el, cs, sel) => {\n    const f = cs.filter;\n    if (!f || f === \"none\" || f === \"\") return void 0;\n    const doc = el.ownerDocument || document;\n    let needsSourceRaster = false;\n    const re = /url\\(\\s*(?:\"|')?#([^\"')\\s]+)(?:\"|')?\\s*\\)/gi;\n    let m;\n    while ((m = re.exec(f)) != null) {\n      const fragId = m[1];\n      const target = doc.getElementById(fragId);\n      if (target != null && target.tagName.toLowerCase() === \"filter\") {\n        if (!filterDefs.has(fragId)) filterDefs.set(fragId, { id: fragId, outerHTML: target.outerHTML });\n        if (el.namespaceURI === \"http://www.w3.org/1999/xhtml\" && filterContainsConvolveMatrix(target, /* @__PURE__ */ new Set())) {\n          needsSourceRaster = true;\n        }\n      } else {\n        warn(sel, \"filter\", 'filter fragment \"#' + fragId + '\" did not resolve to an inline <filter> element');\n      }\n    }\n    if (!needsSourceRaster) return void 0;\n    const token = \"uf\" + urlFilterRasterIdx++;\n    el.setAttribute(\"data-domotion-url-filter-raster\", token);\n    return token;\n  };\n  return { discoverMasks, computeMaskIntrinsic, discoverClipPaths, discoverFilters, maskDefs, maskRasters, clipPathDefs, filterDefs };\n};\n\n// src/capture/script/walker/form-controls.ts\nvar createFormControlsHandler = ({ normColor, resolvePseudo }) => {\n  const captureFormControls = (el, cs, tag) => {\n    const mk = tag === \"details\" ? (() => {\n      const sum = el.querySelector(\":scope > summary\");\n      if (sum == null) return { suppressed: false };\n      if (window.getComputedStyle(sum).listStyleType === \"none\") return { suppressed: true };\n      const mcs = window.getComputedStyle(sum, \"::marker\");\n      const mc = mcs.color;\n      if (mc === \"transparent\") return { suppressed: true };\n      const am = /^rgba\\(\\s*[0-9.]+\\s*,\\s*[0-9.]+\\s*,\\s*[0-9.]+\\s*,\\s*([0-9.]+)\\s*\\)$/.exec(mc);\n      if (am != null && parseFloat(am[1]) === 0) return { suppressed: true };\n      return {\n        suppressed: false,\n        color: normColor(mc),\n        fontSize: parseFloat(mcs.fontSize) || void 0,\n        inside: mcs.listStylePosition === \"inside\"\n      };\n    })() : null;\n    const out = {\n      inputType: tag === \"input\" ? el.type || \"text\" : void 0,\n      // CSS appearance / -webkit-appearance longhand for inputs. When 'none'\n      // (the appearance:none custom-styled pattern) the renderer suppresses\n      // its UA-default checkbox / radio chrome so the host's author-styled\n      // border + background show through, with only the :checked indicator\n      // overlaid on top. DM-285.\n      inputAppearance: tag === \"input\" ? cs.webkitAppearance || cs.appearance || \"\" : void 0,\n      checked: tag === \"input\" && (el.type === \"checkbox\" || el.type === \"radio\") ? !!el.checked : void 0,\n      indeterminate: tag === \"input\" && el.type === \"checkbox\" ? !!el.indeterminate : void 0,\n      disabled: tag === \"input\" || tag === \"button\" || tag === \"select\" || tag === \"textarea\" ? !!el.disabled : void 0,\n      progressValue: tag === \"progress\" ? el.hasAttribute(\"value\") ? +el.value : void 0 : void 0,\n      progressMax: tag === \"progress\" ? el.max || 1 : void 0,\n      meterValue: tag === \"meter\" ? el.value != null ? +el.value : void 0 : void 0,\n      meterMin: tag === \"meter\" ? el.min || 0 : void 0,\n      meterMax: tag === \"meter\" ? el.max || 1 : void 0,\n      meterLow: tag === \"meter\" ? el.low != null ? +el.low : void 0 : void 0,\n      meterHigh: tag === \"meter\" ? el.high != null ? +el.high : void 0 : void 0,\n      meterOptimum: tag === \"meter\" ? el.optimum != null ? +el.optimum : void 0 : void 0,\n      detailsOpen: tag === \"details\" ? !!el.open : void 0,\n      // Detect if author CSS hid the summary's UA disclosure marker. If so,\n      // skip painting our own triangle — the author's custom marker (typically\n      // a ::before / ::after pseudo) is the only one that should show.\n      //   - `list-style: none` / `list-style-type: none` removes the disclosure\n      //     marker entirely (the marker IS a list-item ::marker with\n      //     list-style-type `disclosure-closed`/`disclosure-open`; setting it to\n      //     `none` drops it, exactly as for a styled <li>). This is the common\n      //     idiom — `summary { list-style: none }` plus a custom ::after caret.\n      //     DM-1115. Note `display: flex` on the summary does NOT itself suppress\n      //     the marker — Chrome still paints it when list-style-type is a\n      //     disclosure value, so we key off list-style-type, not display.\n      //   - `::marker { color: transparent }` is the other author technique for\n      //     hiding the UA triangle without changing the box model. DM-448.\n      summaryMarkerSuppressed: tag === \"details\" ? mk == null || mk.suppressed : void 0,\n      // DM-1123: when the disclosure marker IS shown, Chrome paints the\n      // triangle in the computed `::marker` color, at the `::marker` font-size,\n      // and (for the UA-default `list-style-position: inside`) at the summary's\n      // content-start — not in the summary's text color at a fixed 0.7em\n      // outside the padding. Capture those three so the renderer can match it.\n      summaryMarkerColor: mk != null && !mk.suppressed ? mk.color : void 0,\n      summaryMarkerFontSize: mk != null && !mk.suppressed ? mk.fontSize : void 0,\n      summaryMarkerInside: mk != null && !mk.suppressed ? mk.inside : void 0,\n      // DM-1152: `::details-content` (Chrome 131+) styles the disclosure body\n      // separately from the summary. When an OPEN <details> styles it with a\n      // border-top and/or background, Chrome paints a separator line +\n      // background over the content area below the summary — neither of which\n      // round-trips through plain element capture (the pseudo wraps the real\n      // content children rather than generating its own DOM node). Capture the\n      // border-top color/width + background so the renderer can synthesize the\n      // box; geometry is derived from the details + summary rects at render\n      // time. Only emitted when open AND the pseudo carries non-default paint.\n      detailsContentBox: tag === \"details\" && el.open ? (() => {\n        const dc = window.getComputedStyle(el, \"::details-content\");\n        const isPaint = (c) => c != null && c !== \"\" && c !== \"transparent\" && !/^rgba\\(\\s*[0-9.]+\\s*,\\s*[0-9.]+\\s*,\\s*[0-9.]+\\s*,\\s*0\\s*\\)$/.test(c);\n        const btw = parseFloat(dc.borderTopWidth) || 0;\n        const hasBorder = btw > 0 && isPaint(dc.borderTopColor);\n        const hasBg = isPaint(dc.backgroundColor);\n        if (!hasBorder && !hasBg) return void 0;\n        return {\n          borderTopWidth: hasBorder ? btw : 0,\n          borderTopColor: hasBorder ? normColor(dc.borderTopColor) : void 0,\n          bg: hasBg ? normColor(dc.backgroundColor) : void 0,\n          paddingBottom: parseFloat(cs.paddingBottom) || 0,\n          borderLeftWidth: parseFloat(cs.borderLeftWidth) || 0,\n          borderRightWidth: parseFloat(cs.borderRightWidth) || 0,\n          borderBottomWidth: parseFloat(cs.borderBottomWidth) || 0\n        };\n      })() : void 0,\n      // Native chevron only when the select keeps UA chrome — appearance:\n      // none means the page draws its own arrow via background-image, and\n      // we should not stack our default chevron on top. DM-308.\n      selectChevron: tag === \"select\" && el.size <= 1 && !el.multiple && cs.appearance !== \"none\" && cs.webkitAppearance !== \"none\",\n      selectDisplayText: tag === \"select\" && el.size <= 1 && !el.multiple ? el.selectedOptions && el.selectedOptions.length > 0 ? (el.selectedOptions[0].textContent || \"\").trim() : el.options && el.options.length > 0 ? (el.options[0].textContent || \"\").trim() : \"\" : void 0,\n      // Listbox-mode selects (size > 1 or multiple) flatten their option /\n      // optgroup children into a captured row list. The renderer walks this\n      // list and paints one row per entry inside the select's content rect.\n      // Optgroup labels are emitted as italic+bold rows that don't count\n      // against selection. DM-282.\n      selectListboxOptions: tag === \"select\" && (el.size > 1 || el.multiple) ? (function() {\n        const list = [];\n        const hostRect = el.getBoundingClientRect();\n        const row = (o, extra) => {\n          const ocs = window.getComputedStyle(o);\n          const or = o.getBoundingClientRect();\n          const canvas = document.createElement(\"canvas\");\n          const ctx = canvas.getContext(\"2d\");\n          let fontAscent;\n          if (ctx != null) {\n            ctx.font = `${ocs.fontStyle} ${ocs.fontWeight} ${ocs.fontSize} ${ocs.fontFamily}`;\n            fontAscent = ctx.measureText(\"Mxgp\").fontBoundingBoxAscent;\n          }\n          return {\n            text: (o.textContent || \"\").trim(),\n            selected: !!o.selected,\n            disabled: !!o.disabled,\n            ...extra,\n            // Unlike closed-select shadow parts, listbox OPTION elements\n            // expose real layout rects and computed author paint. Capture\n            // those browser-resolved facts instead of rebuilding row\n            // height and :checked styling from host-font heuristics.\n            x: or.left - hostRect.left,\n            y: or.top - hostRect.top,\n            width: or.width,\n            height: or.height,\n            backgroundColor: normColor(ocs.backgroundColor),\n            color: normColor(ocs.color),\n            paddingLeft: parseFloat(ocs.paddingLeft) || 0,\n            paddingTop: parseFloat(ocs.paddingTop) || 0,\n            fontSize: parseFloat(ocs.fontSize) || void 0,\n            fontFamily: ocs.fontFamily || void 0,\n            fontWeight: ocs.fontWeight || void 0,\n            fontStyle: ocs.fontStyle || void 0,\n            fontAscent\n          };\n        };\n        const kids = el.children;\n        for (let ki = 0; ki < kids.length; ki++) {\n          const c = kids[ki];\n          if (c.tagName === \"OPTGROUP\") {\n            list.push(row(c, { text: c.label || \"\", selected: false, isOptgroupLabel: true }));\n            const og = c.children;\n            for (let gi = 0; gi < og.length; gi++) {\n              const o = og[gi];\n              if (o.tagName !== \"OPTION\") continue;\n              list.push(row(o, { isOptgroupChild: true }));\n            }\n          } else if (c.tagName === \"OPTION\") {\n            list.push(row(c, {}));\n          }\n        }\n        return list;\n      })() : void 0,\n      accentColor: tag === \"input\" || tag === \"progress\" || tag === \"meter\" ? normColor(cs.accentColor || \"auto\") : void 0,\n      caretColor: tag === \"input\" || tag === \"textarea\" ? normColor(cs.caretColor || \"auto\") : void 0,\n      inputValue: tag === \"input\" ? el.value || \"\" : void 0,\n      inputMin: tag === \"input\" ? el.min || \"\" : void 0,\n      inputMax: tag === \"input\" ? el.max || \"\" : void 0,\n      inputStep: tag === \"input\" ? el.step || \"\" : void 0,\n      inputMultiple: tag === \"input\" ? !!el.multiple : void 0,\n      inputFileName: tag === \"input\" && el.type === \"file\" && el.files && el.files.length > 0 ? el.files[0].name : void 0\n    };\n    if (tag === \"progress\") {\n      const bar = resolvePseudo(el, \"progress-bar\");\n      const val = resolvePseudo(el, \"progress-value\");\n      out.progressBarBg = bar.matched && bar.backgroundColor !== \"\" ? normColor(bar.backgroundColor) : void 0;\n      out.progressBarBgImage = bar.matched && bar.backgroundImage !== \"\" ? bar.backgroundImage : void 0;\n      out.progressBarRadius = bar.matched && bar.borderRadius !== \"\" ? bar.borderRadius : void 0;\n      out.progressValueBg = val.matched && val.backgroundColor !== \"\" ? normColor(val.backgroundColor) : void 0;\n      out.progressValueBgImage = val.matched && val.backgroundImage !== \"\" ? val.backgroundImage : void 0;\n      out.progressValueRadius = val.matched && val.borderRadius !== \"\" ? val.borderRadius : void 0;\n    }\n    if (tag === \"meter\") {\n      const bar = resolvePseudo(el, \"meter-bar\");\n      const opt = resolvePseudo(el, \"meter-optimum\");\n      const sub = resolvePseudo(el, \"meter-suboptimum\");\n      const elg = resolvePseudo(el, \"meter-even-less-good\");\n      out.meterBarBg = bar.matched && bar.backgroundColor !== \"\" ? normColor(bar.backgroundColor) : void 0;\n      out.meterBarBgImage = bar.matched && bar.backgroundImage !== \"\" ? bar.backgroundImage : void 0;\n      out.meterBarRadius = bar.matched && bar.borderRadius !== \"\" ? bar.borderRadius : void 0;\n      out.meterOptimumBg = opt.matched && opt.backgroundColor !== \"\" ? normColor(opt.backgroundColor) : void 0;\n      out.meterOptimumBgImage = opt.matched && opt.backgroundImage !== \"\" ? opt.backgroundImage : void 0;\n      out.meterSuboptimumBg = sub.matched && sub.backgroundColor !== \"\" ? normColor(sub.backgroundColor) : void 0;\n      out.meterSuboptimumBgImage = sub.matched && sub.backgroundImage !== \"\" ? sub.backgroundImage : void 0;\n      out.meterEvenLessGoodBg = elg.matched && elg.backgroundColor !== \"\" ? normColor(elg.backgroundColor) : void 0;\n      out.meterEvenLessGoodBgImage = elg.matched && elg.backgroundImage !== \"\" ? elg.backgroundImage : void 0;\n    }\n    if (tag === \"input\" && el.type === \"color\") {\n      const swatch = resolvePseudo(el, \"color-swatch\");\n      const wrap = resolvePseudo(el, \"color-swatch-wrapper\");\n      out.colorSwatchBg = swatch.matched && swatch.backgroundColor !== \"\" ? normColor(swatch.backgroundColor) : void 0;\n      out.colorSwatchBgImage = swatch.matched && swatch.backgroundImage !== \"\" ? swatch.backgroundImage : void 0;\n      out.colorSwatchBorder = swatch.matched && swatch.border !== \"\" ? swatch.border : void 0;\n      out.colorSwatchRadius = swatch.matched && swatch.borderRadius !== \"\" ? swatch.borderRadius : void 0;\n      out.colorSwatchWrapperPadding = wrap.matched && wrap.padding !== \"\" ? wrap.padding : void 0;\n    }\n    if (tag === \"input\" && el.type === \"number\") {\n      const spin = resolvePseudo(el, \"inner-spin-button\");\n      out.numberSpinButtonBg = spin.matched && spin.backgroundColor !== \"\" ? normColor(spin.backgroundColor) : void 0;\n      out.numberSpinButtonBorder = spin.matched && spin.border !== \"\" ? spin.border : void 0;\n      out.numberSpinButtonRadius = spin.matched && spin.borderRadius !== \"\" ? spin.borderRadius : void 0;\n    }\n    if (tag === \"input\" && el.type === \"search\") {\n      const cancel = resolvePseudo(el, \"search-cancel-button\");\n      out.searchCancelButtonBg = cancel.matched && cancel.backgroundColor !== \"\" ? normColor(cancel.backgroundColor) : void 0;\n      out.searchCancelButtonBorder = cancel.matched && cancel.border !== \"\" ? cancel.border : void 0;\n      out.searchCancelButtonRadius = cancel.matched && cancel.borderRadius !== \"\" ? cancel.borderRadius : void 0;\n    }\n    if (tag === \"input\" && el.type === \"range\") {\n      const ts = resolvePseudo(el, \"track\");\n      const ms = resolvePseudo(el, \"thumb\");\n      const elAppearance = cs.webkitAppearance || cs.appearance;\n      const customAppearance = elAppearance === \"none\";\n      const styledTrack = ts.matched || customAppearance;\n      const styledThumb = ms.matched || customAppearance;\n      out.rangeTrackBg = styledTrack && ts.backgroundColor !== \"\" ? normColor(ts.backgroundColor) : styledTrack ? \"rgba(0, 0, 0, 0)\" : void 0;\n      out.rangeTrackHeight = styledTrack ? ts.height : void 0;\n      out.rangeTrackRadius = styledTrack ? ts.borderRadius : void 0;\n      out.rangeTrackBgImage = styledTrack && ts.backgroundImage !== \"\" ? ts.backgroundImage : void 0;\n      out.rangeThumbBg = styledThumb && ms.backgroundColor !== \"\" ? normColor(ms.backgroundColor) : styledThumb ? \"rgba(0, 0, 0, 0)\" : void 0;\n      out.rangeThumbWidth = styledThumb ? ms.width : void 0;\n      out.rangeThumbHeight = styledThumb ? ms.height : void 0;\n      out.rangeThumbRadius = styledThumb ? ms.borderRadius : void 0;\n      out.rangeThumbBgImage = styledThumb && ms.backgroundImage !== \"\" ? ms.backgroundImage : void 0;\n      out.rangeTrackBorder = styledTrack && ts.border !== \"\" ? ts.border : void 0;\n      out.rangeThumbBorder = styledThumb && ms.border !== \"\" ? ms.border : void 0;\n      out.rangeThumbBoxShadow = styledThumb && ms.boxShadow !== \"\" ? ms.boxShadow : void 0;\n    }\n    if (tag === \"input\" && el.type === \"file\") {\n      const pseudoCs = window.getComputedStyle(el, \"::file-selector-button\");\n      out.fileButtonBg = normColor(pseudoCs.backgroundColor);\n      out.fileButtonColor = normColor(pseudoCs.color);\n      out.fileButtonBorder = pseudoCs.border;\n      out.fileButtonBorderRadius = pseudoCs.borderRadius;\n      out.fileButtonPadding = pseudoCs.padding;\n      out.fileButtonFontWeight = pseudoCs.fontWeight;\n      out.fileButtonFontSize = pseudoCs.fontSize;\n      out.fileButtonFontFamily = pseudoCs.fontFamily;\n      out.fileButtonMarginRight = pseudoCs.marginRight;\n      const c = document.createElement(\"canvas\");\n      const ctx = c.getContext(\"2d\");\n      if (ctx != null) {\n        const weight = pseudoCs.fontWeight || \"400\";\n        const size = pseudoCs.fontSize || \"13px\";\n        const family = pseudoCs.fontFamily || \"sans-serif\";\n        ctx.font = weight + \" \" + size + \" \" + family;\n        const label = el.multiple ? \"Choose Files\" : \"Choose File\";\n        out.fileButtonLabelWidth = ctx.measureText(label).width;\n      }\n    }\n    return out;\n  };\n  return { captureFormControls };\n};\n\n// src/capture/script/walker/transforms.ts\nvar transformHasRotationOrSkew = (transformStr) => {\n  if (!transformStr || transformStr === \"none\") return false;\n  const m2 = /^matrix\\(\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)/.exec(transformStr);\n  if (m2) {\n    const b = parseFloat(m2[2]);\n    const c = parseFloat(m2[3]);\n    return Math.abs(b) > 1e-6 || Math.abs(c) > 1e-6;\n  }\n  const m3 = /^matrix3d\\(\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)\\s*,\\s*[-\\d.eE]+\\s*,\\s*[-\\d.eE]+\\s*,\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)/.exec(transformStr);\n  if (m3) {\n    const b = parseFloat(m3[2]);\n    const c = parseFloat(m3[3]);\n    return Math.abs(b) > 1e-6 || Math.abs(c) > 1e-6;\n  }\n  if (/\\brotate(?:[XYZ])?\\(/.test(transformStr)) return true;\n  if (/\\bskew(?:[XY])?\\(/.test(transformStr)) return true;\n  return false;\n};\nvar composeEffectiveTransform = (cs) => {\n  const t = cs.translate;\n  const r = cs.rotate;\n  const s = cs.scale;\n  const tr = cs.transform;\n  const hasT = t && t !== \"none\";\n  const hasR = r && r !== \"none\";\n  const hasS = s && s !== \"none\";\n  const hasTr = tr && tr !== \"none\";\n  if (!hasT && !hasR && !hasS && !hasTr) return \"none\";\n  if (!hasT && !hasR && !hasS) return tr;\n  let m = new DOMMatrix();\n  if (hasT) {\n    const ts = t.split(/\\s+/).map((v) => parseFloat(v));\n    const tx = isFinite(ts[0]) ? ts[0] : 0;\n    const ty = ts.length > 1 && isFinite(ts[1]) ? ts[1] : 0;\n    const tz = ts.length > 2 && isFinite(ts[2]) ? ts[2] : 0;\n    m = m.translate(tx, ty, tz);\n  }\n  if (hasR) {\n    const tokens = r.trim().split(/\\s+/);\n    const last = tokens[tokens.length - 1];\n    const angleDeg = parseAngleToDeg(last);\n    if (tokens.length === 4) {\n      const ax = parseFloat(tokens[0]);\n      const ay = parseFloat(tokens[1]);\n      const az = parseFloat(tokens[2]);\n      m = m.rotateAxisAngle(ax, ay, az, angleDeg);\n    } else {\n      m = m.rotate(angleDeg);\n    }\n  }\n  if (hasS) {\n    const ts = s.trim().split(/\\s+/).map((v) => parseFloat(v));\n    const sx = isFinite(ts[0]) ? ts[0] : 1;\n    const sy = ts.length > 1 && isFinite(ts[1]) ? ts[1] : sx;\n    const sz = ts.length > 2 && isFinite(ts[2]) ? ts[2] : 1;\n    m = m.scale(sx, sy, sz);\n  }\n  if (hasTr) {\n    try {\n      m = m.multiply(new DOMMatrix(tr));\n    } catch {\n    }\n  }\n  if (m.is2D) {\n    return `matrix(${m.a}, ${m.b}, ${m.c}, ${m.d}, ${m.e}, ${m.f})`;\n  }\n  return `matrix3d(${m.m11}, ${m.m12}, ${m.m13}, ${m.m14}, ${m.m21}, ${m.m22}, ${m.m23}, ${m.m24}, ${m.m31}, ${m.m32}, ${m.m33}, ${m.m34}, ${m.m41}, ${m.m42}, ${m.m43}, ${m.m44})`;\n};\nvar parseAngleToDeg = (a) => {\n  const m = /^([-+]?\\d*\\.?\\d+(?:[eE][-+]?\\d+)?)(deg|rad|grad|turn)?$/.exec(a);\n  if (!m) return 0;\n  const n = parseFloat(m[1]);\n  const u = m[2] || \"deg\";\n  if (u === \"deg\") return n;\n  if (u === \"rad\") return n * 180 / Math.PI;\n  if (u === \"grad\") return n * 360 / 400;\n  if (u === \"turn\") return n * 360;\n  return n;\n};\nvar createTransformsHandler = () => {\n  const wrapWithFrozenTransform = (el, cs, captureInner) => {\n    const originalTransform = composeEffectiveTransform(cs);\n    const hasTransform = originalTransform && originalTransform !== \"none\";\n    if (!hasTransform) {\n      return captureInner(el, cs, null, null);\n    }\n    const needsFreeze = transformHasRotationOrSkew(originalTransform) || /\\brotate\\b/.test(originalTransform) || /\\bskew/.test(originalTransform);\n    if (needsFreeze) {\n      const inlineTransform = el.style.transform;\n      const inlineRotate = el.style.rotate;\n      const inlineScale = el.style.scale;\n      const inlineTranslate = el.style.translate;\n      el.style.transform = \"translate(0)\";\n      el.style.rotate = \"none\";\n      el.style.scale = \"none\";\n      el.style.translate = \"none\";\n      try {\n        return captureInner(el, cs, originalTransform, cs.transformOrigin);\n      } finally {\n        el.style.transform = inlineTransform;\n        el.style.rotate = inlineRotate;\n        el.style.scale = inlineScale;\n        el.style.translate = inlineTranslate;\n      }\n    }\n    return captureInner(el, cs, originalTransform, cs.transformOrigin);\n  };\n  const threadFrozenTransform = (cs, frozenTransform, _frozenTransformOrigin) => ({\n    // For elements with rotation/skew, record the ORIGINAL transform so the\n    // renderer wraps a `<g transform=...>` around the (un-rotated) captured\n    // rect. For pure translate/scale (or no transform), record `'none'` so\n    // the renderer skips the wrap and paints the rect at its captured (=live)\n    // position directly. frozenTransform is non-null whenever the element\n    // originally had a non-none transform; we only stash the rotation/skew\n    // string back into styles.transform.\n    transform: frozenTransform != null && transformHasRotationOrSkew(frozenTransform) ? frozenTransform : \"none\",\n    transformOrigin: cs.transformOrigin,\n    // DM-751: extract `matrix3d` translateZ so the paint-order sort can\n    // honor 3D Z position when the parent element has\n    // `transform-style: preserve-3d` (which sorts children by Z in 3D\n    // space, not by z-index per CSS Transforms 2 §6). We can't represent\n    // perspective / actual 3D rendering in SVG; this is paint-order only.\n    translateZ: (function() {\n      const tt = cs.transform;\n      if (tt == null || tt === \"none\" || tt === \"\") return void 0;\n      const m3 = /^matrix3d\\(([^)]+)\\)/.exec(tt);\n      if (m3 == null) return void 0;\n      const parts = m3[1].split(\",\").map((s) => parseFloat(s.trim()));\n      const tz = parts[14];\n      return Number.isFinite(tz) && tz !== 0 ? tz : void 0;\n    })(),\n    // DM-587: separately flag elements that ORIGINALLY had a non-none\n    // transform — even though we discard the value to suppress the wrap,\n    // CSS Transforms 2 §4 says any non-none transform creates a stacking\n    // context, and `establishesStackingContext` needs to know that for\n    // z-index ordering (e.g. a `transform: translate(0)` on a positioned\n    // element creates an SC that traps its descendants' z-index resolution).\n    // `frozenTransform != null` is true exactly when the live cs.transform\n    // was non-none at capture time.\n    transformCreatesSc: frozenTransform != null\n  });\n  return { wrapWithFrozenTransform, threadFrozenTransform };\n};\n\n// src/capture/script/walker/collapsed-border.ts\nvar COLLAPSED_BORDER_STYLE_RANK = {\n  none: 0,\n  inset: 2,\n  groove: 3,\n  outset: 4,\n  ridge: 5,\n  dotted: 6,\n  dashed: 7,\n  solid: 8,\n  double: 9\n};\nfunction collapsedBorderStyle(style) {\n  if (style === \"inset\") return \"ridge\";\n  if (style === \"outset\") return \"groove\";\n  return style;\n}\nfunction physicalSidesForTable(writingMode, direction) {\n  if (writingMode === \"horizontal-tb\") {\n    return {\n      blockStart: \"top\",\n      blockEnd: \"bottom\",\n      inlineStart: direction === \"ltr\" ? \"left\" : \"right\",\n      inlineEnd: direction === \"ltr\" ? \"right\" : \"left\"\n    };\n  }\n  const blockStart = writingMode === \"vertical-rl\" || writingMode === \"sideways-rl\" ? \"right\" : \"left\";\n  return {\n    blockStart,\n    blockEnd: blockStart === \"right\" ? \"left\" : \"right\",\n    inlineStart: direction === \"ltr\" ? \"top\" : \"bottom\",\n    inlineEnd: direction === \"ltr\" ? \"bottom\" : \"top\"\n  };\n}\nvar emptyEdge = () => ({ winner: null, doNotFill: false });\nfunction createCollapsedBorderGrid(rows, columns) {\n  return {\n    rows,\n    columns,\n    rowAxis: Array.from({ length: rows + 1 }, () => Array.from({ length: columns }, () => emptyEdge())),\n    columnAxis: Array.from({ length: rows }, () => Array.from({ length: columns + 1 }, () => emptyEdge()))\n  };\n}\nfunction shouldReplaceCollapsedEdge(source, edge) {\n  if (edge.doNotFill) return false;\n  const current = edge.winner;\n  if (current == null || source.style === \"hidden\") return true;\n  if (current.style === \"hidden\") return false;\n  if (source.w !== current.w) return source.w > current.w;\n  return (COLLAPSED_BORDER_STYLE_RANK[source.style] ?? 0) > (COLLAPSED_BORDER_STYLE_RANK[current.style] ?? 0);\n}\nfunction mergeCollapsedEdge(edge, source) {\n  if (source == null || source.style === \"none\") return;\n  if (shouldReplaceCollapsedEdge(source, edge)) edge.winner = source;\n}\nfunction mergeCollapsedBorderBox(grid, row, column, rowspan, colspan, physical, writingMode, direction, markSpanInteriors = false) {\n  const rowEnd = Math.min(grid.rows, row + rowspan);\n  const columnEnd = Math.min(grid.columns, column + colspan);\n  if (row < 0 || column < 0 || row >= rowEnd || column >= columnEnd) return;\n  const logical = physicalSidesForTable(writingMode, direction);\n  for (let c = column; c < columnEnd; c++) {\n    mergeCollapsedEdge(grid.rowAxis[row][c], physical[logical.blockStart] ?? null);\n    mergeCollapsedEdge(grid.rowAxis[rowEnd][c], physical[logical.blockEnd] ?? null);\n  }\n  for (let r = row; r < rowEnd; r++) {\n    mergeCollapsedEdge(grid.columnAxis[r][column], physical[logical.inlineStart] ?? null);\n    mergeCollapsedEdge(grid.columnAxis[r][columnEnd], physical[logical.inlineEnd] ?? null);\n  }\n  if (!markSpanInteriors || rowEnd - row <= 1 && columnEnd - column <= 1) return;\n  for (let r = row; r < rowEnd; r++) {\n    for (let c = column + 1; c < columnEnd; c++) {\n      const edge = grid.columnAxis[r][c];\n      if (edge.winner == null) edge.doNotFill = true;\n    }\n  }\n  for (let r = row + 1; r < rowEnd; r++) {\n    for (let c = column; c < columnEnd; c++) {\n      const edge = grid.rowAxis[r][c];\n      if (edge.winner == null) edge.doNotFill = true;\n    }\n  }\n}\nvar canPaintCollapsedEdge = (edge) => edge?.winner != null && edge.winner.style !== \"none\" && edge.winner.style !== \"hidden\" && edge.winner.w > 0;\nfunction compareCollapsedEdgesForPaint(lhs, rhs) {\n  const lp = canPaintCollapsedEdge(lhs), rp = canPaintCollapsedEdge(rhs);\n  if (lp && rp) {\n    if (lhs.winner.w !== rhs.winner.w) return lhs.winner.w > rhs.winner.w ? 1 : -1;\n    if (lhs.winner.style === rhs.winner.style) {\n      if (lhs.winner.order === rhs.winner.order) return 0;\n      return lhs.winner.order < rhs.winner.order ? 1 : -1;\n    }\n    return (COLLAPSED_BORDER_STYLE_RANK[lhs.winner.style] ?? 0) > (COLLAPSED_BORDER_STYLE_RANK[rhs.winner.style] ?? 0) ? 1 : -1;\n  }\n  if (!lp && !rp) return 0;\n  return lp ? 1 : -1;\n}\nvar winnerWidth = (edge) => canPaintCollapsedEdge(edge) ? edge.winner.w : 0;\nvar edgeAt = (rows, row, column) => row >= 0 && row < rows.length && column >= 0 && column < rows[row].length ? rows[row][column] : null;\nvar collapsedBorderPaintIndex = (rect, columns) => rect.row * (columns + 1) * 2 + rect.column * 2 + (rect.axis === \"row\" ? 1 : 0);\nfunction jointDecision(before, after, over, under, axis, end, overFragmentBoundary = false, underFragmentBoundary = false) {\n  if (!end) {\n    if (overFragmentBoundary) over = null;\n    if (underFragmentBoundary && axis === \"row\") under = null;\n  } else {\n    if (overFragmentBoundary && axis === \"row\") over = null;\n    if (underFragmentBoundary) under = null;\n  }\n  const inlineCompare = compareCollapsedEdgesForPaint(before, after);\n  const inlineWinner = inlineCompare === 1 ? before : after;\n  const blockCompare = compareCollapsedEdgesForPaint(over, under);\n  const blockWinner = blockCompare === 1 ? over : under;\n  const inlineVsBlock = compareCollapsedEdgesForPaint(inlineWinner, blockWinner);\n  const wins = axis === \"row\" ? inlineVsBlock !== -1 && inlineCompare !== (end ? -1 : 1) : inlineVsBlock !== 1 && blockCompare !== (end ? -1 : 1);\n  const blockWidthSuppressed = !end ? overFragmentBoundary || underFragmentBoundary && axis === \"row\" : overFragmentBoundary && axis === \"row\" || underFragmentBoundary;\n  return {\n    inlineWidth: winnerWidth(blockWinner),\n    blockWidth: blockWidthSuppressed ? 0 : winnerWidth(inlineWinner),\n    wins\n  };\n}\nfunction collapsedBorderFragmentLogicalRects(grid, inlineLines, sections) {\n  if (inlineLines.length !== grid.columns + 1)\n    throw new Error(\"collapsed-border inline tracks do not match the edge grid\");\n  const rects = [];\n  let previousPaintedRow = null;\n  for (const section of sections) {\n    const sectionRectStart = rects.length;\n    const lines = section.blockLines;\n    if (lines.length < 2) continue;\n    const finalRowEdge = section.rowStart + lines.length - 1;\n    for (let tableRow = section.rowStart; tableRow <= finalRowEdge; tableRow++) {\n      const localRow = tableRow - section.rowStart;\n      const startRow = localRow === 0;\n      const endRow = localRow === lines.length - 1;\n      const startFragmented = startRow && section.startRowFragmented === true;\n      const endFragmented = endRow && section.endRowFragmented === true;\n      const overBoundary = startRow && section.hasContentBefore === true;\n      const underBoundary = endRow && section.hasContentAfter === true;\n      if (!startFragmented && !endFragmented && previousPaintedRow !== tableRow) {\n        for (let column = 0; column < grid.columns; column++) {\n          const edge = edgeAt(grid.rowAxis, tableRow, column);\n          if (!canPaintCollapsedEdge(edge)) continue;\n          const start = jointDecision(\n            edgeAt(grid.rowAxis, tableRow, column - 1),\n            edge,\n            edgeAt(grid.columnAxis, tableRow - 1, column),\n            edgeAt(grid.columnAxis, tableRow, column),\n            \"row\",\n            false,\n            overBoundary,\n            underBoundary\n          );\n          const end = jointDecision(\n            edge,\n            edgeAt(grid.rowAxis, tableRow, column + 1),\n            edgeAt(grid.columnAxis, tableRow - 1, column + 1),\n            edgeAt(grid.columnAxis, tableRow, column + 1),\n            \"row\",\n            true,\n            overBoundary,\n            underBoundary\n          );\n          let inlineStart = inlineLines[column];\n          let inlineSize = inlineLines[column + 1] - inlineStart;\n          const startDelta = start.inlineWidth / 2;\n          inlineStart += start.wins ? -startDelta : startDelta;\n          inlineSize += start.wins ? startDelta : -startDelta;\n          const endDelta = end.inlineWidth / 2;\n          inlineSize += end.wins ? endDelta : -endDelta;\n          const width = edge.winner.w;\n          rects.push({\n            axis: \"row\",\n            row: tableRow,\n            column,\n            inlineStart,\n            blockStart: overBoundary ? lines[localRow] : lines[localRow] - width / 2,\n            inlineSize,\n            blockSize: overBoundary || underBoundary ? width / 2 : width,\n            winner: edge.winner\n          });\n        }\n      }\n      if (localRow + 1 >= lines.length) continue;\n      const endSegmentRow = localRow + 1 === lines.length - 1;\n      const endSegmentFragmented = endSegmentRow && section.endRowFragmented === true;\n      const underSegmentBoundary = endSegmentRow && section.hasContentAfter === true;\n      for (let column = 0; column <= grid.columns; column++) {\n        const edge = edgeAt(grid.columnAxis, tableRow, column);\n        if (!canPaintCollapsedEdge(edge)) continue;\n        const start = jointDecision(\n          edgeAt(grid.rowAxis, tableRow, column - 1),\n          edgeAt(grid.rowAxis, tableRow, column),\n          edgeAt(grid.columnAxis, tableRow - 1, column),\n          edge,\n          \"column\",\n          false,\n          overBoundary,\n          underSegmentBoundary\n        );\n        const end = jointDecision(\n          edgeAt(grid.rowAxis, tableRow + 1, column - 1),\n          edgeAt(grid.rowAxis, tableRow + 1, column),\n          edge,\n          edgeAt(grid.columnAxis, tableRow + 1, column),\n          \"column\",\n          true,\n          overBoundary,\n          underSegmentBoundary\n        );\n        let blockStart = lines[localRow];\n        let blockSize = lines[localRow + 1] - blockStart;\n        if (!startFragmented) {\n          const delta = start.blockWidth / 2;\n          blockStart += start.wins ? -delta : delta;\n          blockSize += start.wins ? delta : -delta;\n        }\n        if (!endSegmentFragmented) {\n          const delta = end.blockWidth / 2;\n          blockSize += end.wins ? delta : -delta;\n        }\n        rects.push({\n          axis: \"column\",\n          row: tableRow,\n          column,\n          inlineStart: inlineLines[column] - edge.winner.w / 2,\n          blockStart,\n          inlineSize: edge.winner.w,\n          blockSize,\n          winner: edge.winner\n        });\n      }\n    }\n    const sectionRects = rects.splice(sectionRectStart);\n    sectionRects.sort((a, b) => collapsedBorderPaintIndex(a, grid.columns) - collapsedBorderPaintIndex(b, grid.columns));\n    rects.push(...sectionRects);\n    previousPaintedRow = section.endRowFragmented ? null : finalRowEdge;\n  }\n  return rects;\n}\nfunction collapsedBorderLogicalRects(grid, inlineLines, blockLines) {\n  if (inlineLines.length !== grid.columns + 1 || blockLines.length !== grid.rows + 1)\n    throw new Error(\"collapsed-border track coordinates do not match the edge grid\");\n  const rects = [];\n  for (let row = 0; row <= grid.rows; row++) {\n    for (let column = 0; column < grid.columns; column++) {\n      const edge = grid.rowAxis[row][column];\n      if (!canPaintCollapsedEdge(edge)) continue;\n      const start = jointDecision(\n        edgeAt(grid.rowAxis, row, column - 1),\n        edge,\n        edgeAt(grid.columnAxis, row - 1, column),\n        edgeAt(grid.columnAxis, row, column),\n        \"row\",\n        false\n      );\n      const end = jointDecision(\n        edge,\n        edgeAt(grid.rowAxis, row, column + 1),\n        edgeAt(grid.columnAxis, row - 1, column + 1),\n        edgeAt(grid.columnAxis, row, column + 1),\n        \"row\",\n        true\n      );\n      let inlineStart = inlineLines[column];\n      let inlineSize = inlineLines[column + 1] - inlineStart;\n      const startDelta = start.inlineWidth / 2;\n      inlineStart += start.wins ? -startDelta : startDelta;\n      inlineSize += start.wins ? startDelta : -startDelta;\n      const endDelta = end.inlineWidth / 2;\n      inlineSize += end.wins ? endDelta : -endDelta;\n      rects.push({ axis: \"row\", row, column, inlineStart, blockStart: blockLines[row] - edge.winner.w / 2, inlineSize, blockSize: edge.winner.w, winner: edge.winner });\n    }\n  }\n  for (let row = 0; row < grid.rows; row++) {\n    for (let column = 0; column <= grid.columns; column++) {\n      const edge = grid.columnAxis[row][column];\n      if (!canPaintCollapsedEdge(edge)) continue;\n      const start = jointDecision(\n        edgeAt(grid.rowAxis, row, column - 1),\n        edgeAt(grid.rowAxis, row, column),\n        edgeAt(grid.columnAxis, row - 1, column),\n        edge,\n        \"column\",\n        false\n      );\n      const end = jointDecision(\n        edgeAt(grid.rowAxis, row + 1, column - 1),\n        edgeAt(grid.rowAxis, row + 1, column),\n        edge,\n        edgeAt(grid.columnAxis, row + 1, column),\n        \"column\",\n        true\n      );\n      let blockStart = blockLines[row];\n      let blockSize = blockLines[row + 1] - blockStart;\n      const startDelta = start.blockWidth / 2;\n      blockStart += start.wins ? -startDelta : startDelta;\n      blockSize += start.wins ? startDelta : -startDelta;\n      const endDelta = end.blockWidth / 2;\n      blockSize += end.wins ? endDelta : -endDelta;\n      rects.push({ axis: \"column\", row, column, inlineStart: inlineLines[column] - edge.winner.w / 2, blockStart, inlineSize: edge.winner.w, blockSize, winner: edge.winner });\n    }\n  }\n  rects.sort((a, b) => collapsedBorderPaintIndex(a, grid.columns) - collapsedBorderPaintIndex(b, grid.columns));\n  return rects;\n}\n\n// src/capture/script/walker/borders-backgrounds.ts\nvar physicalComputedPaintLength = (value, effectiveZoom) => {\n  if (effectiveZoom === 1) return value;\n  const number = parseFloat(value);\n  if (!Number.isFinite(number)) return value;\n  return `${Math.round(number * effectiveZoom * 1e6) / 1e6}px`;\n};\nvar physicalComputedTileSize = (value, effectiveZoom) => {\n  if (effectiveZoom === 1) return value;\n  return value.replace(/(-?(?:\\d+(?:\\.\\d+)?|\\.\\d+))px\\b/g, (_match, number) => `${Math.round(parseFloat(number) * effectiveZoom * 1e6) / 1e6}px`);\n};\nvar tableGridRectFromCaptions = (tableRect, writingMode, captions) => {\n  const vertical = /^(?:vertical|sideways)-/.test(writingMode);\n  const blockReverse = writingMode === \"vertical-rl\" || writingMode === \"sideways-rl\";\n  const blockExtent = vertical ? tableRect.width : tableRect.height;\n  const logicalEdges = (rect) => {\n    if (!vertical) return { start: rect.top - tableRect.top, end: rect.bottom - tableRect.top };\n    if (blockReverse) return { start: tableRect.right - rect.right, end: tableRect.right - rect.left };\n    return { start: rect.left - tableRect.left, end: rect.right - tableRect.left };\n  };\n  let blockStart = 0;\n  let blockEnd = blockExtent;\n  let sawBottom = false;\n  for (const caption of captions) {\n    const edges = logicalEdges(caption.rect);\n    if (caption.side === \"bottom\") {\n      if (!sawBottom) {\n        blockEnd = edges.start - caption.marginBlockStart;\n        sawBottom = true;\n      }\n    } else {\n      blockStart = edges.end + caption.marginBlockEnd;\n    }\n  }\n  if (!vertical) {\n    return {\n      x: tableRect.left,\n      y: tableRect.top + blockStart,\n      width: tableRect.width,\n      height: blockEnd - blockStart\n    };\n  }\n  return {\n    x: blockReverse ? tableRect.right - blockEnd : tableRect.left + blockStart,\n    y: tableRect.top,\n    width: blockEnd - blockStart,\n    height: tableRect.height\n  };\n};\nvar createBordersBackgroundsHandler = ({ normColor, normGradientColors, resolvePlaceholderShownBg, resolveCornerRadius, effectiveZoomFor = () => 1, warn = () => {\n}, shortSelector = () => \"\", vp = { x: 0, y: 0 } }) => {\n  const isUaColorBorder = (tag, el, cs, side) => tag === \"input\" && el.type === \"color\" && normColor(cs[side], cs.color).replace(/\\s+/g, \"\") === \"rgb(0,0,0)\";\n  const tintedBorderColor = (tag, el, cs, side) => isUaColorBorder(tag, el, cs, side) ? \"rgb(118,118,118)\" : normColor(cs[side], cs.color);\n  const pseudoCreatesInflowFragment = (el, pseudo) => {\n    const styleWindow = el.ownerDocument?.defaultView ?? window;\n    const pcs = styleWindow.getComputedStyle(el, pseudo);\n    const content = pcs.content;\n    return content != null && content !== \"\" && content !== \"none\" && content !== \"normal\" && pcs.display !== \"none\" && pcs.position !== \"absolute\" && pcs.position !== \"fixed\";\n  };\n  const nodeCreatesInflowFragment = (node) => {\n    if (node.nodeType === 3) {\n      const range = node.ownerDocument.createRange();\n      range.selectNodeContents(node);\n      const hasFragment = range.getClientRects().length > 0;\n      if (range.detach) range.detach();\n      return hasFragment;\n    }\n    if (node.nodeType !== 1) return false;\n    const styleWindow = node.ownerDocument?.defaultView ?? window;\n    const ncs = styleWindow.getComputedStyle(node);\n    if (ncs.display === \"none\" || ncs.position === \"absolute\" || ncs.position === \"fixed\") return false;\n    if (ncs.display !== \"contents\") return true;\n    if (pseudoCreatesInflowFragment(node, \"::before\")) return true;\n    for (const child of node.childNodes) if (nodeCreatesInflowFragment(child)) return true;\n    return pseudoCreatesInflowFragment(node, \"::after\");\n  };\n  const tableCellHasInflowFragments = (cell) => {\n    if (pseudoCreatesInflowFragment(cell, \"::before\")) return true;\n    for (const child of cell.childNodes) if (nodeCreatesInflowFragment(child)) return true;\n    return pseudoCreatesInflowFragment(cell, \"::after\");\n  };\n  const isTableCellHiddenByEmptyCells = (el, cs, tag) => (tag === \"td\" || tag === \"th\") && cs.borderCollapse !== \"collapse\" && cs.emptyCells === \"hide\" && !tableCellHasInflowFragments(el);\n  const resolveTableGridRect = (el, cs, tag, rect) => {\n    if (tag !== \"table\") return void 0;\n    const captions = [];\n    for (const child of el.children) {\n      const styleWindow = child.ownerDocument?.defaultView ?? window;\n      const ccs = styleWindow.getComputedStyle(child);\n      if (ccs.display !== \"table-caption\") continue;\n      const captionRect = child.getBoundingClientRect();\n      const zoom = effectiveZoomFor(child);\n      const vertical = /^(?:vertical|sideways)-/.test(cs.writingMode);\n      const blockReverse = cs.writingMode === \"vertical-rl\" || cs.writingMode === \"sideways-rl\";\n      const marginBlockStart = parseFloat(vertical ? blockReverse ? ccs.marginRight : ccs.marginLeft : ccs.marginTop) * zoom || 0;\n      const marginBlockEnd = parseFloat(vertical ? blockReverse ? ccs.marginLeft : ccs.marginRight : ccs.marginBottom) * zoom || 0;\n      captions.push({\n        rect: captionRect,\n        side: ccs.captionSide === \"bottom\" ? \"bottom\" : \"top\",\n        marginBlockStart,\n        marginBlockEnd\n      });\n    }\n    if (captions.length === 0) return void 0;\n    const grid = tableGridRectFromCaptions(rect, cs.writingMode, captions);\n    return { x: grid.x - vp.x, y: grid.y - vp.y, width: grid.width, height: grid.height };\n  };\n  const computeFrostedBgFallback = (cs) => {\n    const bdf = cs.backdropFilter || cs.webkitBackdropFilter || \"\";\n    if (bdf === \"\" || bdf === \"none\") return void 0;\n    const bgCol = normColor(cs.backgroundColor, cs.color);\n    let a = 1;\n    const m = /rgba?\\(\\s*[^,)\\s]+[ ,]+[^,)\\s]+[ ,]+[^,)\\s]+(?:[ ,/]+([^)]+))?\\)/.exec(bgCol);\n    if (m != null && m[1] != null) {\n      const av = parseFloat(m[1]);\n      if (!isNaN(av)) a = av;\n    }\n    if (a > 0.1) return void 0;\n    const bodyBg = normColor(window.getComputedStyle(document.body).backgroundColor);\n    let bodyA = 1;\n    const bm = /rgba?\\(\\s*[^,)\\s]+[ ,]+[^,)\\s]+[ ,]+[^,)\\s]+(?:[ ,/]+([^)]+))?\\)/.exec(bodyBg);\n    if (bm != null && bm[1] != null) {\n      const bav = parseFloat(bm[1]);\n      if (!isNaN(bav)) bodyA = bav;\n    }\n    return bodyA <= 0.1 ? \"rgb(255,255,255)\" : bodyBg;\n  };\n  const computeBackgroundImages = (el, cs) => {\n    const bgImage = cs.backgroundImage;\n    if (bgImage == null || bgImage === \"none\" || bgImage === \"\") return void 0;\n    const records = el && el.__domotionBackgroundImages;\n    if (!Array.isArray(records)) {\n      warn(shortSelector(el), \"background-image\", \"capture-time selected-image sizing record was unavailable\");\n      return void 0;\n    }\n    const recordWarnings = [];\n    for (const record of records) {\n      if (record == null || record.warning == null) continue;\n      recordWarnings.push(\"layer \" + record.layerIndex + \": \" + record.warning);\n    }\n    if (recordWarnings.length > 0) {\n      warn(shortSelector(el), \"background-image\", recordWarnings.join(\"; \"));\n    }\n    return records;\n  };\n  const computeBorderImageIntrinsic = (cs, dim) => {\n    const url = extractCssUrl(cs.borderImageSource || \"\");\n    if (url == null) return void 0;\n    const img = new Image();\n    img.src = url;\n    return img[dim] || void 0;\n  };\n  const resolveCollapsedTableRects = (table) => {\n    if (table.__dmCollapsedBorderRects !== void 0) return table.__dmCollapsedBorderRects;\n    const tableCs = getComputedStyle(table);\n    if (tableCs.borderCollapse !== \"collapse\") return table.__dmCollapsedBorderRects = null;\n    const writingMode = tableCs.writingMode || \"horizontal-tb\";\n    const direction = tableCs.direction === \"rtl\" ? \"rtl\" : \"ltr\";\n    const sectionEls = Array.from(table.children).filter((x) => x.tagName === \"THEAD\" || x.tagName === \"TBODY\" || x.tagName === \"TFOOT\");\n    const directRows = Array.from(table.children).filter((x) => x.tagName === \"TR\");\n    const rowEntries = [];\n    if (directRows.length) for (const row of directRows) rowEntries.push({ row, section: null, sectionIndex: -1 });\n    for (let sectionIndex = 0; sectionIndex < sectionEls.length; sectionIndex++) {\n      for (const row of Array.from(sectionEls[sectionIndex].children).filter((x) => x.tagName === \"TR\")) rowEntries.push({ row, section: sectionEls[sectionIndex], sectionIndex });\n    }\n    if (!rowEntries.length) return table.__dmCollapsedBorderRects = null;\n    const occupancy = [], cells = [], sections = /* @__PURE__ */ new Map();\n    let columns = 0;\n    for (let r = 0; r < rowEntries.length; r++) {\n      occupancy[r] || (occupancy[r] = []);\n      const entry = rowEntries[r];\n      if (entry.section != null) {\n        const current = sections.get(entry.section);\n        if (current == null) sections.set(entry.section, { start: r, count: 1 });\n        else current.count++;\n      }\n      let c = 0;\n      for (const cell of Array.from(entry.row.children).filter((x) => x.tagName === \"TD\" || x.tagName === \"TH\")) {\n        while (occupancy[r][c] != null) c++;\n        const colspan = Math.max(1, cell.colSpan || 1);\n        let rowspan = Math.max(1, cell.rowSpan || 1);\n        if (entry.section != null) {\n          const sectionRows = Array.from(entry.section.children).filter((x) => x.tagName === \"TR\");\n          const localRow = sectionRows.indexOf(entry.row);\n          rowspan = Math.min(rowspan, sectionRows.length - localRow);\n        } else rowspan = Math.min(rowspan, rowEntries.length - r);\n        const meta = { cell, row: r, column: c, rowspan, colspan };\n        cells.push(meta);\n        for (let rr = r; rr < r + rowspan; rr++) {\n          occupancy[rr] || (occupancy[rr] = []);\n          for (let cc = c; cc < c + colspan; cc++) occupancy[rr][cc] = meta;\n        }\n        c += colspan;\n        columns = Math.max(columns, c);\n      }\n    }\n    if (!columns) return table.__dmCollapsedBorderRects = null;\n    const grid = createCollapsedBorderGrid(rowEntries.length, columns);\n    let boxOrder = 0;\n    const physicalBorders = (node, order) => {\n      const cs = getComputedStyle(node);\n      const zoom = effectiveZoomFor(node);\n      const one = (side) => ({\n        side: side.toLowerCase(),\n        order,\n        w: parseFloat(physicalComputedPaintLength(cs[\"border\" + side + \"Width\"], zoom)) || 0,\n        style: collapsedBorderStyle(cs[\"border\" + side + \"Style\"]),\n        color: normColor(cs[\"border\" + side + \"Color\"], cs.color)\n      });\n      return { top: one(\"Top\"), right: one(\"Right\"), bottom: one(\"Bottom\"), left: one(\"Left\") };\n    };\n    for (const meta of cells) mergeCollapsedBorderBox(grid, meta.row, meta.column, meta.rowspan, meta.colspan, physicalBorders(meta.cell, ++boxOrder), writingMode, direction, true);\n    for (let r = 0; r < rowEntries.length; r++) mergeCollapsedBorderBox(grid, r, 0, 1, columns, physicalBorders(rowEntries[r].row, ++boxOrder), writingMode, direction);\n    for (const [section, span] of sections) mergeCollapsedBorderBox(grid, span.start, 0, span.count, columns, physicalBorders(section, ++boxOrder), writingMode, direction);\n    const columnEntries = [];\n    for (const child of Array.from(table.children)) {\n      if (child.tagName === \"COL\") {\n        columnEntries.push({ col: child, group: null, start: columnEntries.length, span: Math.max(1, child.span || 1) });\n      } else if (child.tagName === \"COLGROUP\") {\n        const start = columnEntries.reduce((n, item) => Math.max(n, item.start + item.span), 0);\n        const cols = Array.from(child.children).filter((x) => x.tagName === \"COL\");\n        if (!cols.length) columnEntries.push({ col: null, group: child, start, span: Math.max(1, child.span || 1) });\n        else {\n          let at = start;\n          for (const col of cols) {\n            const span = Math.max(1, col.span || 1);\n            columnEntries.push({ col, group: child, start: at, span });\n            at += span;\n          }\n        }\n      }\n    }\n    const columnOrder = ++boxOrder;\n    for (const entry of columnEntries) if (entry.col != null) mergeCollapsedBorderBox(grid, 0, entry.start, rowEntries.length, entry.span, physicalBorders(entry.col, columnOrder), writingMode, direction);\n    const groupOrder = ++boxOrder;\n    const groupsSeen = /* @__PURE__ */ new Set();\n    for (const entry of columnEntries) if (entry.group != null && !groupsSeen.has(entry.group)) {\n      groupsSeen.add(entry.group);\n      const members = columnEntries.filter((x) => x.group === entry.group);\n      const start = Math.min(...members.map((x) => x.start));\n      const end = Math.max(...members.map((x) => x.start + x.span));\n      mergeCollapsedBorderBox(grid, 0, start, rowEntries.length, end - start, physicalBorders(entry.group, groupOrder), writingMode, direction);\n    }\n    mergeCollapsedBorderBox(grid, 0, 0, rowEntries.length, columns, physicalBorders(table, ++boxOrder), writingMode, direction);\n    const tableRect = table.getBoundingClientRect();\n    const trackLines = (samples, fallbackEnd) => {\n      const lines = samples.map((values) => {\n        if (!values.length) return null;\n        values.sort((a, b) => a - b);\n        const mid = Math.floor(values.length / 2);\n        return values.length % 2 ? values[mid] : (values[mid - 1] + values[mid]) / 2;\n      });\n      if (lines[0] == null) lines[0] = 0;\n      if (lines[lines.length - 1] == null) lines[lines.length - 1] = fallbackEnd;\n      for (let i = 1; i < lines.length - 1; i++) if (lines[i] == null) {\n        let hi = i + 1;\n        while (hi < lines.length && lines[hi] == null) hi++;\n        lines[i] = lines[i - 1] + (lines[hi] - lines[i - 1]) / (hi - i + 1);\n      }\n      return lines;\n    };\n    const tableFragments = Array.from(table.getClientRects()).filter((rect) => rect.width > 0 && rect.height > 0);\n    if (tableFragments.length > 1) {\n      const overlapArea = (a, b) => Math.max(0, Math.min(a.right, b.right) - Math.max(a.left, b.left)) * Math.max(0, Math.min(a.bottom, b.bottom) - Math.max(a.top, b.top));\n      const fragmentIndexFor = (rect) => {\n        let best = -1, area = 0;\n        for (let i = 0; i < tableFragments.length; i++) {\n          const candidate = overlapArea(rect, tableFragments[i]);\n          if (candidate > area) {\n            best = i;\n            area = candidate;\n          }\n        }\n        return best;\n      };\n      const horizontal2 = writingMode === \"horizontal-tb\";\n      const blockReverse2 = writingMode === \"vertical-rl\" || writingMode === \"sideways-rl\";\n      const repeatedSections = /* @__PURE__ */ new Map();\n      for (const section of sectionEls) {\n        if (section.tagName !== \"THEAD\" && section.tagName !== \"TFOOT\") continue;\n        const rects = Array.from(section.getClientRects());\n        const mapped = new Set(rects.map(fragmentIndexFor).filter((index) => index >= 0));\n        if (rects.length === tableFragments.length && tableFragments.length > 1 && mapped.size === 1) {\n          repeatedSections.set(section, { kind: section.tagName === \"THEAD\" ? \"header\" : \"footer\", sourceFragment: [...mapped][0] });\n        }\n      }\n      const translatedRect = (rect, dx, dy) => ({\n        x: rect.x + dx,\n        y: rect.y + dy,\n        left: rect.left + dx,\n        right: rect.right + dx,\n        top: rect.top + dy,\n        bottom: rect.bottom + dy,\n        width: rect.width,\n        height: rect.height\n      });\n      const fragmentRectsFor = (node, section) => {\n        const rects = Array.from(node.getClientRects());\n        const repeated = repeatedSections.get(section);\n        if (repeated == null || !rects.length) return rects.map((rect) => ({ rect, fragment: fragmentIndexFor(rect), repeated: false }));\n        const sourceRect = rects[0];\n        const sourceFragment = tableFragments[repeated.sourceFragment];\n        return tableFragments.map((target, fragment) => {\n          let dx, dy;\n          if (horizontal2) {\n            dx = target.left - sourceFragment.left;\n            dy = repeated.kind === \"header\" ? target.top - sourceFragment.top : target.bottom - sourceFragment.bottom;\n          } else {\n            dy = target.top - sourceFragment.top;\n            if (repeated.kind === \"header\") dx = blockReverse2 ? target.right - sourceFragment.right : target.left - sourceFragment.left;\n            else dx = blockReverse2 ? target.left - sourceFragment.left : target.right - sourceFragment.right;\n          }\n          return { rect: translatedRect(sourceRect, dx, dy), fragment, repeated: true };\n        });\n      };\n      const rowPieces = rowEntries.map((entry, row) => fragmentRectsFor(entry.row, entry.section).map((piece) => ({ rect: piece.rect, fragment: piece.fragment, repeated: piece.repeated, row, section: entry.section })).filter((piece) => piece.fragment >= 0));\n      const cellPieces = cells.map((meta) => fragmentRectsFor(meta.cell, rowEntries[meta.row].section).map((piece) => ({ rect: piece.rect, fragment: piece.fragment, meta })).filter((piece) => piece.fragment >= 0));\n      const sectionPieces = new Map(sectionEls.map((section) => [section, fragmentRectsFor(section, section)]));\n      const physicalRects2 = [];\n      for (let fragmentIndex = 0; fragmentIndex < tableFragments.length; fragmentIndex++) {\n        const fragmentRect = tableFragments[fragmentIndex];\n        const inlineReverse2 = direction === \"rtl\";\n        const logical = (rect) => ({\n          inlineStart: horizontal2 ? inlineReverse2 ? fragmentRect.right - rect.right : rect.left - fragmentRect.left : inlineReverse2 ? fragmentRect.bottom - rect.bottom : rect.top - fragmentRect.top,\n          inlineEnd: horizontal2 ? inlineReverse2 ? fragmentRect.right - rect.left : rect.right - fragmentRect.left : inlineReverse2 ? fragmentRect.bottom - rect.top : rect.bottom - fragmentRect.top,\n          blockStart: horizontal2 ? rect.top - fragmentRect.top : blockReverse2 ? fragmentRect.right - rect.right : rect.left - fragmentRect.left,\n          blockEnd: horizontal2 ? rect.bottom - fragmentRect.top : blockReverse2 ? fragmentRect.right - rect.left : rect.right - fragmentRect.left\n        });\n        const inlineSamples2 = Array.from({ length: columns + 1 }, () => []);\n        for (const pieces of cellPieces) for (const piece of pieces) if (piece.fragment === fragmentIndex) {\n          const coords = logical(piece.rect), meta = piece.meta;\n          inlineSamples2[meta.column].push(coords.inlineStart);\n          inlineSamples2[meta.column + meta.colspan].push(coords.inlineEnd);\n        }\n        const inlineExtent2 = horizontal2 ? fragmentRect.width : fragmentRect.height;\n        const inlineLines = trackLines(inlineSamples2, inlineExtent2);\n        const piecesHere = rowPieces.flat().filter((piece) => piece.fragment === fragmentIndex);\n        const sectionGroups = /* @__PURE__ */ new Map();\n        for (const piece of piecesHere) {\n          const key = piece.section ?? table;\n          let group = sectionGroups.get(key);\n          if (group == null) {\n            group = [];\n            sectionGroups.set(key, group);\n          }\n          group.push(piece);\n        }\n        const groups = Array.from(sectionGroups.values()).map((pieces) => {\n          pieces.sort((a, b) => logical(a.rect).blockStart - logical(b.rect).blockStart || a.row - b.row);\n          const first = pieces[0], last = pieces[pieces.length - 1];\n          const blockLines = pieces.map((piece) => logical(piece.rect).blockStart);\n          const sectionRect = first.section == null ? null : sectionPieces.get(first.section)?.find((piece) => piece.fragment === fragmentIndex)?.rect;\n          blockLines.push(sectionRect == null ? logical(last.rect).blockEnd : logical(sectionRect).blockEnd);\n          const firstPieceIndex = rowPieces[first.row].findIndex((piece) => piece === first);\n          const lastPieceIndex = rowPieces[last.row].findIndex((piece) => piece === last);\n          return {\n            rowStart: first.row,\n            blockLines,\n            startRowFragmented: !first.repeated && firstPieceIndex > 0,\n            endRowFragmented: !last.repeated && lastPieceIndex >= 0 && lastPieceIndex < rowPieces[last.row].length - 1\n          };\n        }).sort((a, b) => a.blockLines[0] - b.blockLines[0]);\n        for (let i = 0; i < groups.length; i++) {\n          groups[i].hasContentBefore = i === 0 && groups[i].rowStart > 0;\n          groups[i].hasContentAfter = i === groups.length - 1 && groups[i].rowStart + groups[i].blockLines.length < grid.rows + 1;\n        }\n        const logicalRects2 = collapsedBorderFragmentLogicalRects(grid, inlineLines, groups);\n        for (const rect of logicalRects2) {\n          let x, y, width, height;\n          if (horizontal2) {\n            x = inlineReverse2 ? fragmentRect.right - rect.inlineStart - rect.inlineSize : fragmentRect.left + rect.inlineStart;\n            y = fragmentRect.top + rect.blockStart;\n            width = rect.inlineSize;\n            height = rect.blockSize;\n          } else {\n            x = blockReverse2 ? fragmentRect.right - rect.blockStart - rect.blockSize : fragmentRect.left + rect.blockStart;\n            y = inlineReverse2 ? fragmentRect.bottom - rect.inlineStart - rect.inlineSize : fragmentRect.top + rect.inlineStart;\n            width = rect.blockSize;\n            height = rect.inlineSize;\n          }\n          const snap2 = (start, size) => {\n            const rounded = Math.round(start);\n            return { start: rounded, size: Math.max(0, Math.round(start + size) - rounded) };\n          };\n          const sx = snap2(x, width), sy = snap2(y, height);\n          if (sx.size > 0 && sy.size > 0) physicalRects2.push({ x: sx.start, y: sy.start, width: sx.size, height: sy.size, axis: rect.axis, style: rect.winner.style, color: rect.winner.color });\n        }\n      }\n      table.__dmCollapsedCells = new Set(cells.map((meta) => meta.cell));\n      table.__dmCollapsedBorderRects = physicalRects2;\n      return physicalRects2;\n    }\n    const inlineSamples = Array.from({ length: columns + 1 }, () => []);\n    const blockSamples = Array.from({ length: rowEntries.length + 1 }, () => []);\n    const horizontal = writingMode === \"horizontal-tb\";\n    const blockReverse = writingMode === \"vertical-rl\" || writingMode === \"sideways-rl\";\n    const inlineReverse = direction === \"rtl\";\n    for (const meta of cells) {\n      const rect = meta.cell.getBoundingClientRect();\n      const inlineStart = horizontal ? inlineReverse ? tableRect.right - rect.right : rect.left - tableRect.left : inlineReverse ? tableRect.bottom - rect.bottom : rect.top - tableRect.top;\n      const inlineEnd = horizontal ? inlineReverse ? tableRect.right - rect.left : rect.right - tableRect.left : inlineReverse ? tableRect.bottom - rect.top : rect.bottom - tableRect.top;\n      const blockStart = horizontal ? rect.top - tableRect.top : blockReverse ? tableRect.right - rect.right : rect.left - tableRect.left;\n      const blockEnd = horizontal ? rect.bottom - tableRect.top : blockReverse ? tableRect.right - rect.left : rect.right - tableRect.left;\n      inlineSamples[meta.column].push(inlineStart);\n      inlineSamples[meta.column + meta.colspan].push(inlineEnd);\n      blockSamples[meta.row].push(blockStart);\n      blockSamples[meta.row + meta.rowspan].push(blockEnd);\n    }\n    const inlineExtent = horizontal ? tableRect.width : tableRect.height;\n    const blockExtent = horizontal ? tableRect.height : tableRect.width;\n    const logicalRects = collapsedBorderLogicalRects(grid, trackLines(inlineSamples, inlineExtent), trackLines(blockSamples, blockExtent));\n    const snap = (start, size) => {\n      const rounded = Math.round(start);\n      return { start: rounded, size: Math.max(0, Math.round(start + size) - rounded) };\n    };\n    const physicalRects = logicalRects.map((rect) => {\n      let x, y, width, height;\n      if (horizontal) {\n        x = inlineReverse ? tableRect.right - rect.inlineStart - rect.inlineSize : tableRect.left + rect.inlineStart;\n        y = tableRect.top + rect.blockStart;\n        width = rect.inlineSize;\n        height = rect.blockSize;\n      } else {\n        x = blockReverse ? tableRect.right - rect.blockStart - rect.blockSize : tableRect.left + rect.blockStart;\n        y = inlineReverse ? tableRect.bottom - rect.inlineStart - rect.inlineSize : tableRect.top + rect.inlineStart;\n        width = rect.blockSize;\n        height = rect.inlineSize;\n      }\n      const sx = snap(x, width), sy = snap(y, height);\n      return { x: sx.start, y: sy.start, width: sx.size, height: sy.size, axis: rect.axis, style: rect.winner.style, color: rect.winner.color };\n    }).filter((rect) => rect.width > 0 && rect.height > 0);\n    table.__dmCollapsedCells = new Set(cells.map((meta) => meta.cell));\n    table.__dmCollapsedBorderRects = physicalRects;\n    return physicalRects;\n  };\n  const isCollapsedStructural = (tag, cs) => cs.borderCollapse === \"collapse\" && (tag === \"table\" || tag === \"tr\" || tag === \"thead\" || tag === \"tbody\" || tag === \"tfoot\" || tag === \"colgroup\" || tag === \"col\");\n  const captureBordersBackgrounds = (el, cs, tag, rect, isPlaceholderCapture, effectiveZoom = 1) => {\n    const backgroundImages = computeBackgroundImages(el, cs);\n    return {\n      tableGridRect: resolveTableGridRect(el, cs, tag, rect),\n      backgroundColor: (function() {\n        if (isPlaceholderCapture) {\n          const psBg = resolvePlaceholderShownBg(el);\n          if (psBg !== \"\") return normColor(psBg);\n        }\n        return normColor(cs.backgroundColor, cs.color);\n      })(),\n      borderColor: normColor(cs.borderColor, cs.color),\n      borderWidth: physicalComputedPaintLength(cs.borderWidth, effectiveZoom),\n      borderRadius: cs.borderRadius,\n      borderTopLeftRadius: resolveCornerRadius(cs.borderTopLeftRadius, rect.width, rect.height, effectiveZoom),\n      borderTopRightRadius: resolveCornerRadius(cs.borderTopRightRadius, rect.width, rect.height, effectiveZoom),\n      borderBottomRightRadius: resolveCornerRadius(cs.borderBottomRightRadius, rect.width, rect.height, effectiveZoom),\n      borderBottomLeftRadius: resolveCornerRadius(cs.borderBottomLeftRadius, rect.width, rect.height, effectiveZoom),\n      cornerTopLeftShape: cs.cornerTopLeftShape,\n      cornerTopRightShape: cs.cornerTopRightShape,\n      cornerBottomRightShape: cs.cornerBottomRightShape,\n      cornerBottomLeftShape: cs.cornerBottomLeftShape,\n      borderTopWidth: physicalComputedPaintLength(cs.borderTopWidth, effectiveZoom),\n      borderRightWidth: physicalComputedPaintLength(cs.borderRightWidth, effectiveZoom),\n      borderBottomWidth: physicalComputedPaintLength(cs.borderBottomWidth, effectiveZoom),\n      borderLeftWidth: physicalComputedPaintLength(cs.borderLeftWidth, effectiveZoom),\n      borderTopStyle: cs.borderTopStyle,\n      borderRightStyle: cs.borderRightStyle,\n      borderBottomStyle: cs.borderBottomStyle,\n      borderLeftStyle: cs.borderLeftStyle,\n      borderTopColor: tintedBorderColor(tag, el, cs, \"borderTopColor\"),\n      borderRightColor: tintedBorderColor(tag, el, cs, \"borderRightColor\"),\n      borderBottomColor: tintedBorderColor(tag, el, cs, \"borderBottomColor\"),\n      borderLeftColor: tintedBorderColor(tag, el, cs, \"borderLeftColor\"),\n      borderCollapse: cs.borderCollapse,\n      // DM-1260: full collapsed-border conflict resolution. For a cell, override\n      // each side with the resolved winning border (overlapping the adjacent cell's\n      // matching resolved side); for a collapsed structural element, suppress its\n      // box border (folded into the cells). Placed AFTER the per-side width/style/\n      // color fields above so it wins. Complex tables (no resolution) fall through.\n      ...(function() {\n        let collapsedTable = null;\n        if (cs.borderCollapse === \"collapse\") {\n          collapsedTable = tag === \"table\" ? el : el.closest && el.closest(\"table\");\n        }\n        const tableRects = collapsedTable != null ? resolveCollapsedTableRects(collapsedTable) : null;\n        if (tableRects != null && tag === \"table\") {\n          return {\n            collapsedBorderRects: tableRects,\n            borderTopStyle: \"none\",\n            borderRightStyle: \"none\",\n            borderBottomStyle: \"none\",\n            borderLeftStyle: \"none\",\n            borderTopWidth: \"0px\",\n            borderRightWidth: \"0px\",\n            borderBottomWidth: \"0px\",\n            borderLeftWidth: \"0px\",\n            borderWidth: \"0px\",\n            borderColor: \"rgba(0, 0, 0, 0)\"\n          };\n        }\n        if (tableRects != null && (isCollapsedStructural(tag, cs) || tag === \"td\" || tag === \"th\")) {\n          return {\n            borderTopStyle: \"none\",\n            borderRightStyle: \"none\",\n            borderBottomStyle: \"none\",\n            borderLeftStyle: \"none\",\n            borderTopWidth: \"0px\",\n            borderRightWidth: \"0px\",\n            borderBottomWidth: \"0px\",\n            borderLeftWidth: \"0px\",\n            borderWidth: \"0px\",\n            borderColor: \"rgba(0, 0, 0, 0)\"\n          };\n        }\n        if (isCollapsedStructural(tag, cs)) {\n          return {\n            borderTopStyle: \"none\",\n            borderRightStyle: \"none\",\n            borderBottomStyle: \"none\",\n            borderLeftStyle: \"none\",\n            borderTopWidth: \"0px\",\n            borderRightWidth: \"0px\",\n            borderBottomWidth: \"0px\",\n            borderLeftWidth: \"0px\",\n            // Also clear the shorthands — the renderer's legacy uniform-border path\n            // falls back to `borderWidth` / `borderColor` when the per-side parses\n            // resolve to a zero-width border, which would re-paint the structural box.\n            borderWidth: \"0px\",\n            borderColor: \"rgba(0, 0, 0, 0)\"\n          };\n        }\n        return {};\n      })(),\n      frostedBgFallback: computeFrostedBgFallback(cs),\n      backgroundImage: normGradientColors(cs.backgroundImage, cs.color),\n      backgroundSize: physicalComputedTileSize(cs.backgroundSize, effectiveZoom),\n      // Computed px terms are serialized before effective zoom, while the\n      // captured positioning/painting DOMRects are already physical. Blink's\n      // FillLayer stores zoomed Length values, so cross that boundary once here\n      // for position just as we already do for background-size.\n      backgroundPosition: physicalComputedTileSize(cs.backgroundPosition, effectiveZoom),\n      backgroundRepeat: cs.backgroundRepeat,\n      backgroundClip: cs.backgroundClip,\n      backgroundBlendMode: cs.backgroundBlendMode,\n      // DM-462: -webkit-text-fill-color is the property that actually makes\n      // the headline text transparent in the background-clip:text idiom\n      // (cs.color may still report a normal value).\n      webkitTextFillColor: cs.webkitTextFillColor || cs.WebkitTextFillColor || void 0,\n      // DM-749: Stripe's keynote-speaker headline pattern — a span with\n      // `background-image: <gradient>; background-clip: text; -webkit-text-\n      // fill-color: transparent` wraps a child div that holds the actual\n      // text. The gradient is on the parent but Chrome lets it paint through\n      // the child's glyphs because background-clip: text masks the gradient\n      // by the union of all descendant text shapes. When the element's own\n      // bg-image is none AND its text-fill-color is transparent AND an\n      // ancestor has background-clip: text with a gradient, capture that\n      // ancestor's gradient so the renderer can use it as the glyph fill.\n      ...(function() {\n        const ownTfc = cs.webkitTextFillColor || cs.WebkitTextFillColor || \"\";\n        if (!/^(rgba\\(0[^)]*?,\\s*0\\)|transparent)$/i.test(ownTfc.trim())) {\n          return { inheritedTextFillGradient: void 0 };\n        }\n        let p = el.parentElement;\n        let depth = 0;\n        while (p != null && depth < 8) {\n          const pcs = window.getComputedStyle(p);\n          const bc = (pcs.backgroundClip || \"\") + \" \" + (pcs.webkitBackgroundClip || \"\");\n          if (/\\btext\\b/i.test(bc) && pcs.backgroundImage && pcs.backgroundImage !== \"none\" && pcs.backgroundImage !== \"\") {\n            const prect = p.getBoundingClientRect();\n            return {\n              inheritedTextFillGradient: pcs.backgroundImage,\n              inheritedTextFillGradientRect: { x: prect.x, y: prect.y, width: prect.width, height: prect.height }\n            };\n          }\n          p = p.parentElement;\n          depth++;\n        }\n        return { inheritedTextFillGradient: void 0 };\n      })(),\n      // DM-719: `-webkit-text-stroke-width` / `-webkit-text-stroke-color` paint a\n      // stroke around each glyph outline. Captured so the renderer can add a\n      // `stroke` attribute to the text-path emission.\n      webkitTextStrokeWidth: cs.webkitTextStrokeWidth || cs.WebkitTextStrokeWidth || void 0,\n      webkitTextStrokeColor: cs.webkitTextStrokeColor || cs.WebkitTextStrokeColor || void 0,\n      paintOrder: cs.paintOrder || void 0,\n      backgroundOrigin: cs.backgroundOrigin,\n      backgroundAttachment: cs.backgroundAttachment,\n      backgroundImages,\n      // Compatibility projection only. The selected candidate and complete\n      // natural-sizing state live in backgroundImages.\n      backgroundIntrinsic: (() => {\n        return backgroundImages?.map((record) => record != null && record.naturalWidth != null && record.naturalHeight != null ? { w: record.naturalWidth, h: record.naturalHeight } : null);\n      })(),\n      borderImageSource: cs.borderImageSource,\n      borderImageSlice: cs.borderImageSlice,\n      borderImageWidth: cs.borderImageWidth,\n      borderImageOutset: cs.borderImageOutset,\n      borderImageRepeat: cs.borderImageRepeat,\n      borderImageIntrinsicWidth: computeBorderImageIntrinsic(cs, \"naturalWidth\"),\n      borderImageIntrinsicHeight: computeBorderImageIntrinsic(cs, \"naturalHeight\"),\n      outlineStyle: cs.outlineStyle,\n      outlineWidth: physicalComputedPaintLength(cs.outlineWidth, effectiveZoom),\n      outlineColor: normColor(cs.outlineColor),\n      outlineOffset: physicalComputedPaintLength(cs.outlineOffset, effectiveZoom),\n      boxShadow: cs.boxShadow,\n      // box-decoration-break: 'slice' (default) vs 'clone'. Drives per-fragment\n      // paint of wrapped inline elements; see CapturedElement.inlineFragments.\n      boxDecorationBreak: cs.boxDecorationBreak || cs.webkitBoxDecorationBreak || \"slice\"\n    };\n  };\n  return { captureBordersBackgrounds, isTableCellHiddenByEmptyCells };\n};\n\n// src/capture/script/walker/background-attachment.ts\nvar TRANSFORM_WILL_CHANGE = /* @__PURE__ */ new Set([\n  \"transform\",\n  \"transform-style\",\n  \"perspective\",\n  \"translate\",\n  \"rotate\",\n  \"scale\",\n  \"offset-path\",\n  \"offset-position\"\n]);\nvar splitLayers = (value) => {\n  const out = [];\n  let depth = 0;\n  let quote = \"\";\n  let escaped = false;\n  let start = 0;\n  for (let i = 0; i < value.length; i++) {\n    const ch = value[i];\n    if (escaped) {\n      escaped = false;\n      continue;\n    }\n    if (ch === \"\\\\\") {\n      escaped = true;\n      continue;\n    }\n    if (quote !== \"\") {\n      if (ch === quote) quote = \"\";\n      continue;\n    }\n    if (ch === '\"' || ch === \"'\") {\n      quote = ch;\n      continue;\n    }\n    if (ch === \"(\") depth++;\n    else if (ch === \")\") depth = Math.max(0, depth - 1);\n    else if (ch === \",\" && depth === 0) {\n      out.push(value.slice(start, i).trim());\n      start = i + 1;\n    }\n  }\n  out.push(value.slice(start).trim());\n  return out;\n};\nvar hasAnyTransformWillChange = (style) => {\n  if (style.willChange == null || style.willChange === \"\" || style.willChange === \"auto\") return false;\n  return style.willChange.split(/[\\s,]+/).some((token) => TRANSFORM_WILL_CHANGE.has(token.toLowerCase()));\n};\nvar hasPaintLayerTransform = (style) => {\n  if (style.transform != null && style.transform !== \"\" && style.transform !== \"none\" || style.translate != null && style.translate !== \"\" && style.translate !== \"none\" || style.rotate != null && style.rotate !== \"\" && style.rotate !== \"none\" || style.scale != null && style.scale !== \"\" && style.scale !== \"none\") return true;\n  return style.offsetPath != null && style.offsetPath !== \"\" && style.offsetPath !== \"none\";\n};\nvar isVisibleCanvasBackground = (style) => {\n  const image = style.backgroundImage;\n  const color = style.backgroundColor;\n  return image != null && image !== \"\" && image !== \"none\" || color != null && color !== \"\" && color !== \"transparent\" && color !== \"rgba(0, 0, 0, 0)\" && color !== \"rgba(0,0,0,0)\";\n};\nvar createBackgroundAttachmentHandler = ({ vp, transformRelatedBoxFor, effectiveZoomFor, scrollbarPropertyKey }) => {\n  const fixedToViewport = (el) => {\n    const doc = el.ownerDocument;\n    const root = doc.documentElement;\n    if (el === root) return true;\n    for (let current = el; current != null && current !== root; current = current.parentElement) {\n      const style = (current.ownerDocument.defaultView || window).getComputedStyle(current);\n      if (transformRelatedBoxFor(current) === false) continue;\n      if (hasPaintLayerTransform(style) || hasAnyTransformWillChange(style)) return false;\n    }\n    return true;\n  };\n  const canvasOwner = (doc) => {\n    const root = doc.documentElement;\n    const body = doc.body;\n    if (root != null && isVisibleCanvasBackground((doc.defaultView || window).getComputedStyle(root))) return root;\n    return body;\n  };\n  const overflowClip = (el, rect, border, scaleX, scaleY) => {\n    let x = rect.left - vp.x + border.left;\n    let y = rect.top - vp.y + border.top;\n    let width = Math.max(0, rect.width - border.left - border.right);\n    let height = Math.max(0, rect.height - border.top - border.bottom);\n    const scrollbarSet = typeof scrollbarPropertyKey === \"string\" && scrollbarPropertyKey !== \"\" ? el[scrollbarPropertyKey] : void 0;\n    if (scrollbarSet != null && scrollbarSet.overlay === false) {\n      const vertical = scrollbarSet.vertical && scrollbarSet.vertical.frameRect;\n      if (vertical != null) {\n        if (scrollbarSet.vertical.logicalSide === \"left\") {\n          const edge = vertical.x + vertical.width;\n          const shrink = Math.max(0, edge - x);\n          x += shrink;\n          width = Math.max(0, width - shrink);\n        } else {\n          width = Math.max(0, Math.min(width, vertical.x - x));\n        }\n      }\n      const horizontal = scrollbarSet.horizontal && scrollbarSet.horizontal.frameRect;\n      if (horizontal != null) height = Math.max(0, Math.min(height, horizontal.y - y));\n    } else if (scrollbarSet == null) {\n      const clientWidth = Number(el.clientWidth) * scaleX;\n      const clientHeight = Number(el.clientHeight) * scaleY;\n      if (clientWidth > 0 && width - clientWidth > 0.5) width = clientWidth;\n      if (clientHeight > 0 && height - clientHeight > 0.5) height = clientHeight;\n    }\n    return { x, y, width, height };\n  };\n  const captureBackgroundAttachment = (el, style, rect, scaleX = 1, scaleY = 1) => {\n    const attachments = splitLayers(style.backgroundAttachment || \"scroll\");\n    const needsFixed = attachments.includes(\"fixed\");\n    const needsLocal = attachments.includes(\"local\");\n    const doc = el.ownerDocument;\n    const root = doc.documentElement;\n    const ownsCanvas = el === canvasOwner(doc) && isVisibleCanvasBackground(style);\n    if (!needsFixed && !needsLocal && !ownsCanvas) return void 0;\n    const zoom = effectiveZoomFor(el);\n    const physicalX = Number.isFinite(scaleX) && scaleX > 0 ? scaleX : zoom;\n    const physicalY = Number.isFinite(scaleY) && scaleY > 0 ? scaleY : zoom;\n    const border = {\n      top: (parseFloat(style.borderTopWidth) || 0) * physicalY,\n      right: (parseFloat(style.borderRightWidth) || 0) * physicalX,\n      bottom: (parseFloat(style.borderBottomWidth) || 0) * physicalY,\n      left: (parseFloat(style.borderLeftWidth) || 0) * physicalX\n    };\n    const rootRect = root.getBoundingClientRect();\n    const rootZoom = effectiveZoomFor(root);\n    const localScrollContainer = [\"auto\", \"hidden\", \"overlay\", \"scroll\"].includes(style.overflowX) || [\"auto\", \"hidden\", \"overlay\", \"scroll\"].includes(style.overflowY);\n    return {\n      source: \"blink-box-background-paint-context-v1\",\n      fixedToViewport: needsFixed ? fixedToViewport(el) : false,\n      layoutViewport: {\n        x: -vp.x,\n        y: -vp.y,\n        // Root clientHeight may expose the stitched document height when the\n        // root box itself is unconstrained. The layout viewport never exceeds\n        // innerWidth/innerHeight; client* is only the scrollbar-excluding cap.\n        width: Math.min((doc.defaultView || window).innerWidth, doc.documentElement.clientWidth),\n        height: Math.min((doc.defaultView || window).innerHeight, doc.documentElement.clientHeight)\n      },\n      local: needsLocal ? {\n        active: localScrollContainer,\n        // ScrollOffsetInt is the physical, pixel-snapped offset. CSSOM scroll\n        // positions are zoom-adjusted, so cross that boundary before snapping.\n        scrollOffsetX: Math.round(Number(el.scrollLeft || 0) * zoom) * (physicalX / zoom),\n        scrollOffsetY: Math.round(Number(el.scrollTop || 0) * zoom) * (physicalY / zoom),\n        borderPaintWidth: Number(el.scrollWidth || 0) * physicalX + border.left + border.right,\n        borderPaintHeight: Number(el.scrollHeight || 0) * physicalY + border.top + border.bottom,\n        overflowClip: overflowClip(el, rect, border, physicalX, physicalY)\n      } : void 0,\n      canvas: ownsCanvas ? {\n        owner: el === root ? \"root\" : \"body-propagated\",\n        positioningRect: {\n          x: rootRect.left - vp.x,\n          y: rootRect.top - vp.y,\n          width: Math.max(rootRect.width, Number(root.scrollWidth || 0) * rootZoom),\n          height: Math.max(rootRect.height, Number(root.scrollHeight || 0) * rootZoom)\n        }\n      } : void 0\n    };\n  };\n  return { captureBackgroundAttachment };\n};\n\n// src/capture/script/walker/pseudo-content.ts\nvar pseudoCanvasFont = (pcs) => (pcs.fontStyle || \"normal\") + \" \" + (pcs.fontWeight || \"normal\") + \" \" + (pcs.fontSize || \"16px\") + \" \" + (pcs.fontFamily || \"sans-serif\");\nvar buildPseudoContentHandler = ({\n  vp,\n  normColor,\n  measureFontMetrics,\n  textNeedsRaster,\n  resolveCounterValue,\n  isCustomCounterStyle,\n  composeEffectiveTransform: composeEffectiveTransform2,\n  effectiveZoomFor = () => 1,\n  physicalComputedCssPixelTerms = (value) => value\n}) => {\n  const physicalFilter = (el, value) => value && value !== \"none\" ? physicalComputedCssPixelTerms(value, effectiveZoomFor(el)) : void 0;\n  const physicalNumber = (el, value) => {\n    const number = parseFloat(value);\n    return Number.isFinite(number) ? number * effectiveZoomFor(el) : 0;\n  };\n  const physicalTransform = (el, value) => {\n    const zoom = effectiveZoomFor(el);\n    if (!value || value === \"none\" || zoom === 1) return value;\n    const m2 = /^matrix\\(([^)]+)\\)$/.exec(value);\n    if (m2 != null) {\n      const parts = m2[1].split(\",\").map((part) => parseFloat(part));\n      if (parts.length === 6 && parts.every(Number.isFinite)) {\n        parts[4] *= zoom;\n        parts[5] *= zoom;\n        return `matrix(${parts.join(\", \")})`;\n      }\n    }\n    const m3 = /^matrix3d\\(([^)]+)\\)$/.exec(value);\n    if (m3 != null) {\n      const parts = m3[1].split(\",\").map((part) => parseFloat(part));\n      if (parts.length === 16 && parts.every(Number.isFinite)) {\n        parts[12] *= zoom;\n        parts[13] *= zoom;\n        parts[14] *= zoom;\n        return `matrix3d(${parts.join(\", \")})`;\n      }\n    }\n    return value;\n  };\n  let _emojiAdvCv = null;\n  let _emojiAdvCtx = null;\n  const measureGlyphAdvance = (s, pcs) => {\n    if (_emojiAdvCtx == null) {\n      _emojiAdvCv = document.createElement(\"canvas\");\n      _emojiAdvCtx = _emojiAdvCv.getContext(\"2d\");\n    }\n    _emojiAdvCtx.font = pseudoCanvasFont(pcs);\n    return _emojiAdvCtx.measureText(s).width;\n  };\n  const probeGeneratedPseudoLayout = (el, pseudo, text, pcs) => {\n    const span = document.createElement(\"span\");\n    for (let i = 0; i < pcs.length; i++) {\n      const name = pcs.item(i);\n      span.style.setProperty(name, pcs.getPropertyValue(name));\n    }\n    span.style.setProperty(\"content\", \"normal\");\n    span.style.setProperty(\"visibility\", \"hidden\");\n    span.style.setProperty(\"pointer-events\", \"none\");\n    span.style.setProperty(\"transform\", \"none\");\n    span.style.setProperty(\"translate\", \"none\");\n    span.style.setProperty(\"rotate\", \"none\");\n    span.style.setProperty(\"scale\", \"none\");\n    span.textContent = text;\n    if (pseudo === \"::before\") el.insertBefore(span, el.firstChild);\n    else el.appendChild(span);\n    const borderRect = span.getBoundingClientRect();\n    const range = document.createRange();\n    range.selectNodeContents(span);\n    const textRect = range.getBoundingClientRect();\n    const result = {\n      borderRect: { left: borderRect.left, top: borderRect.top, width: borderRect.width, height: borderRect.height },\n      textRect: { left: textRect.left, top: textRect.top, width: textRect.width, height: textRect.height }\n    };\n    span.remove();\n    return result;\n  };\n  const probePseudoStaticBoxRect = (el, pseudo, pcs) => {\n    const probe = document.createElement(\"span\");\n    probe.style.cssText = \"pointer-events:none;visibility:hidden;box-sizing:content-box\";\n    probe.style.display = pcs.display;\n    probe.style.width = pcs.width;\n    probe.style.height = pcs.height;\n    probe.style.paddingTop = pcs.paddingTop;\n    probe.style.paddingRight = pcs.paddingRight;\n    probe.style.paddingBottom = pcs.paddingBottom;\n    probe.style.paddingLeft = pcs.paddingLeft;\n    probe.style.borderTopWidth = pcs.borderTopWidth;\n    probe.style.borderRightWidth = pcs.borderRightWidth;\n    probe.style.borderBottomWidth = pcs.borderBottomWidth;\n    probe.style.borderLeftWidth = pcs.borderLeftWidth;\n    probe.style.borderStyle = \"solid\";\n    probe.style.borderColor = \"transparent\";\n    probe.style.marginTop = pcs.marginTop;\n    probe.style.marginRight = pcs.marginRight;\n    probe.style.marginBottom = pcs.marginBottom;\n    probe.style.marginLeft = pcs.marginLeft;\n    probe.style.verticalAlign = pcs.verticalAlign;\n    probe.style.font = \"\";\n    if (pseudo === \"::before\") el.insertBefore(probe, el.firstChild);\n    else el.appendChild(probe);\n    const r = probe.getBoundingClientRect();\n    probe.remove();\n    return r;\n  };\n  const probePseudoAbsoluteBoxRect = (el, pseudo, pcs) => {\n    const probe = document.createElement(\"div\");\n    probe.style.cssText = \"pointer-events:none;visibility:hidden;box-sizing:content-box;margin:0\";\n    probe.style.position = pcs.position;\n    probe.style.top = pcs.top;\n    probe.style.right = pcs.right;\n    probe.style.bottom = pcs.bottom;\n    probe.style.left = pcs.left;\n    probe.style.width = pcs.width;\n    probe.style.height = pcs.height;\n    probe.style.paddingTop = pcs.paddingTop;\n    probe.style.paddingRight = pcs.paddingRight;\n    probe.style.paddingBottom = pcs.paddingBottom;\n    probe.style.paddingLeft = pcs.paddingLeft;\n    probe.style.borderTopWidth = pcs.borderTopWidth;\n    probe.style.borderRightWidth = pcs.borderRightWidth;\n    probe.style.borderBottomWidth = pcs.borderBottomWidth;\n    probe.style.borderLeftWidth = pcs.borderLeftWidth;\n    probe.style.borderStyle = \"solid\";\n    probe.style.borderColor = \"transparent\";\n    probe.style.marginTop = pcs.marginTop;\n    probe.style.marginRight = pcs.marginRight;\n    probe.style.marginBottom = pcs.marginBottom;\n    probe.style.marginLeft = pcs.marginLeft;\n    probe.style.transform = \"\";\n    probe.style.transformOrigin = \"\";\n    if (pseudo === \"::before\") el.insertBefore(probe, el.firstChild);\n    else el.appendChild(probe);\n    const r = probe.getBoundingClientRect();\n    probe.remove();\n    return r;\n  };\n  const pickQuoteChar = (forEl, isOpen) => {\n    let depth = 0;\n    let p = forEl.parentElement;\n    while (p != null) {\n      if (p.tagName === \"Q\") depth++;\n      p = p.parentElement;\n    }\n    const cs = window.getComputedStyle(forEl).quotes;\n    if (cs == null || cs === \"\" || cs === \"none\" || cs === \"auto\") {\n      const pairs = [[\"\\u201C\", \"\\u201D\"], [\"\\u2018\", \"\\u2019\"]];\n      const pair = pairs[Math.min(depth, pairs.length - 1)];\n      return isOpen ? pair[0] : pair[1];\n    }\n    const tokens = [];\n    let i = 0;\n    while (i < cs.length) {\n      if (cs[i] === '\"') {\n        let j = i + 1;\n        let s = \"\";\n        while (j < cs.length && cs[j] !== '\"') {\n          if (cs[j] === \"\\\\\") {\n            s += cs[j + 1];\n            j += 2;\n          } else {\n            s += cs[j];\n            j++;\n          }\n        }\n        tokens.push(s);\n        i = j + 1;\n      } else {\n        i++;\n      }\n    }\n    if (tokens.length < 2) {\n      const pair = [\"\\u201C\", \"\\u201D\"];\n      return isOpen ? pair[0] : pair[1];\n    }\n    const pairIdx = Math.min(depth, Math.floor((tokens.length - 1) / 2));\n    return isOpen ? tokens[pairIdx * 2] : tokens[pairIdx * 2 + 1];\n  };\n  const parsePseudoContent = (content, el, counterSnapshot, pseudo) => {\n    let text = \"\";\n    let imageUrl = \"\";\n    let i = 0;\n    while (i < content.length) {\n      const c = content[i];\n      if (c === '\"' || c === \"'\") {\n        const end = content.indexOf(c, i + 1);\n        if (end < 0) break;\n        text += content.slice(i + 1, end);\n        i = end + 1;\n      } else if (content.startsWith(\"attr(\", i)) {\n        const end = content.indexOf(\")\", i);\n        if (end < 0) break;\n        const attrName = content.slice(i + 5, end).trim();\n        text += el.getAttribute(attrName) || \"\";\n        i = end + 1;\n      } else if (content.startsWith(\"url(\", i)) {\n        const end = content.indexOf(\")\", i);\n        if (end < 0) break;\n        let url = content.slice(i + 4, end).trim();\n        if (url.startsWith('\"') && url.endsWith('\"') || url.startsWith(\"'\") && url.endsWith(\"'\")) {\n          url = url.slice(1, -1);\n        }\n        imageUrl = url;\n        i = end + 1;\n      } else if (content.startsWith(\"counter(\", i) || content.startsWith(\"counters(\", i)) {\n        const isCounters = content.startsWith(\"counters(\", i);\n        const openIdx = i + (isCounters ? \"counters(\".length : \"counter(\".length);\n        const closeIdx = content.indexOf(\")\", openIdx);\n        if (closeIdx < 0) {\n          i++;\n          continue;\n        }\n        const args = content.slice(openIdx, closeIdx).split(\",\").map((s) => {\n          const t = s.trim();\n          if (t.startsWith('\"') && t.endsWith('\"') || t.startsWith(\"'\") && t.endsWith(\"'\")) {\n            return t.slice(1, -1);\n          }\n          return t;\n        });\n        const cname = args[0];\n        const sep = isCounters ? args[1] ?? \"\" : \"\";\n        const styleArg = isCounters ? args[2] : args[1];\n        const useStyle = styleArg != null && styleArg !== \"\" && resolveCounterValue != null;\n        const format = (v) => {\n          if (!useStyle) return String(v);\n          const out = resolveCounterValue(styleArg, v);\n          return out != null ? out : String(v);\n        };\n        const captured = counterSnapshot.get(el);\n        const snapshot = captured?.[pseudo] ?? captured?.element ?? captured ?? [];\n        const matches = snapshot.filter((s) => s.name === cname).map((s) => format(s.value));\n        if (isCounters) {\n          text += matches.length > 0 ? matches.join(sep) : format(0);\n        } else {\n          text += matches.length > 0 ? matches[matches.length - 1] : format(0);\n        }\n        i = closeIdx + 1;\n      } else if (content.startsWith(\"open-quote\", i)) {\n        text += pickQuoteChar(el, true);\n        i += \"open-quote\".length;\n      } else if (content.startsWith(\"close-quote\", i)) {\n        text += pickQuoteChar(el, false);\n        i += \"close-quote\".length;\n      } else if (content.startsWith(\"no-open-quote\", i)) {\n        i += \"no-open-quote\".length;\n      } else if (content.startsWith(\"no-close-quote\", i)) {\n        i += \"no-close-quote\".length;\n      } else {\n        i++;\n      }\n    }\n    return { text, imageUrl };\n  };\n  const captureEmptyContentBox = (el, cs, pseudo, pcs, rect) => {\n    const bgRaw = pcs.backgroundColor;\n    const hasBg = bgRaw && bgRaw !== \"\" && bgRaw !== \"rgba(0, 0, 0, 0)\" && bgRaw !== \"transparent\";\n    const bgImgRaw = pcs.backgroundImage;\n    const hasBgImg = hasCssValue(bgImgRaw);\n    const rawBorderWidths = sideWidths(pcs, \"border\", \"Width\");\n    const bwT = rawBorderWidths.top * effectiveZoomFor(el);\n    const bwR = rawBorderWidths.right * effectiveZoomFor(el);\n    const bwB = rawBorderWidths.bottom * effectiveZoomFor(el);\n    const bwL = rawBorderWidths.left * effectiveZoomFor(el);\n    const hasBorder = bwT > 0 || bwR > 0 || bwB > 0 || bwL > 0;\n    const isBlockLike = pcs.display === \"block\" || pcs.display === \"inline-block\" || pcs.display === \"flex\";\n    if (isBlockLike && (hasBg || hasBgImg || hasBorder)) {\n      const zoom = effectiveZoomFor(el);\n      const hostPadL = physicalNumber(el, cs.paddingLeft);\n      const hostPadT = physicalNumber(el, cs.paddingTop);\n      const hostBorL = physicalNumber(el, cs.borderLeftWidth);\n      const hostBorT = physicalNumber(el, cs.borderTopWidth);\n      const hostBorR = physicalNumber(el, cs.borderRightWidth);\n      const pMarL = physicalNumber(el, pcs.marginLeft);\n      const rawPadding = sideWidths(pcs, \"padding\", \"\");\n      const pPadL = rawPadding.left * zoom;\n      const pPadR = rawPadding.right * zoom;\n      const pPadT = rawPadding.top * zoom;\n      const pPadB = rawPadding.bottom * zoom;\n      const hostContentW = rect.width - hostBorL - hostBorR - hostPadL - physicalNumber(el, cs.paddingRight);\n      const pcsW = parseFloat(pcs.width);\n      const pcsH = parseFloat(pcs.height);\n      const contentW = !isNaN(pcsW) ? pcsW * zoom : hostContentW - pMarL - physicalNumber(el, pcs.marginRight);\n      const contentH = !isNaN(pcsH) ? pcsH * zoom : 0;\n      const borderBoxW = contentW + pPadL + pPadR + bwL + bwR;\n      const borderBoxH = contentH + pPadT + pPadB + bwT + bwB;\n      let borderBoxX;\n      let borderBoxY;\n      if (pcs.position === \"absolute\" || pcs.position === \"fixed\") {\n        const pr = probePseudoAbsoluteBoxRect(el, pseudo, pcs);\n        borderBoxX = pr.left - vp.x;\n        borderBoxY = pr.top - vp.y;\n      } else {\n        const pMarT = physicalNumber(el, pcs.marginTop);\n        borderBoxX = rect.left - vp.x + hostBorL + hostPadL + pMarL;\n        borderBoxY = rect.top - vp.y + hostBorT + hostPadT + pMarT;\n        const hostFlex = cs.display === \"flex\" || cs.display === \"inline-flex\";\n        const justify = cs.justifyContent || \"\";\n        const pushesEnd = justify.indexOf(\"space-between\") >= 0 || justify.indexOf(\"flex-end\") >= 0 || justify === \"end\" || justify === \"right\";\n        if (pseudo === \"::after\" && hostFlex && pushesEnd) {\n          const hostPadR = physicalNumber(el, cs.paddingRight);\n          const pMarR = physicalNumber(el, pcs.marginRight);\n          borderBoxX = rect.right - vp.x - hostBorR - hostPadR - pMarR - borderBoxW;\n          if (cs.alignItems === \"center\") {\n            const hostBorB = physicalNumber(el, cs.borderBottomWidth);\n            const hostPadB = physicalNumber(el, cs.paddingBottom);\n            const contentH2 = rect.height - hostBorT - hostBorB - hostPadT - hostPadB;\n            borderBoxY = rect.top - vp.y + hostBorT + hostPadT + (contentH2 - borderBoxH) / 2 + pMarT;\n          }\n        }\n        const dispIsInline = pcs.display === \"inline-block\" || pcs.display === \"inline-flex\" || pcs.display === \"inline-grid\" || pcs.display === \"inline-table\";\n        if (dispIsInline) {\n          const pr = probePseudoStaticBoxRect(el, pseudo, pcs);\n          borderBoxY = pr.top - vp.y;\n          if (pseudo === \"::after\") {\n            borderBoxX = pr.left - vp.x;\n          } else {\n            const pMarR = physicalNumber(el, pcs.marginRight);\n            borderBoxX = pr.left - vp.x - pMarR - borderBoxW - pMarL;\n          }\n        }\n      }\n      let degenerateHostTransform = false;\n      if (cs.transform && cs.transform !== \"none\") {\n        const m2 = /^matrix\\(\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)/.exec(cs.transform);\n        if (m2) {\n          const a = parseFloat(m2[1]);\n          const b = parseFloat(m2[2]);\n          const c = parseFloat(m2[3]);\n          const d = parseFloat(m2[4]);\n          if (Math.abs(a * d - b * c) < 1e-9) degenerateHostTransform = true;\n        }\n      }\n      if (borderBoxW > 0 && borderBoxH > 0 && !degenerateHostTransform) {\n        const pcsComposedRaw = composeEffectiveTransform2 != null ? composeEffectiveTransform2(pcs) : pcs.transform || \"none\";\n        const pcsComposed = physicalTransform(el, pcsComposedRaw);\n        const pcsTransform = pcsComposed && pcsComposed !== \"none\" ? pcsComposed : void 0;\n        const pcsTransformOrigin = pcsTransform != null ? physicalComputedCssPixelTerms(pcs.transformOrigin || \"\", zoom) || void 0 : void 0;\n        const pcsZ = parseInt(pcs.zIndex, 10);\n        const pcsZIndex = Number.isFinite(pcsZ) ? pcsZ : void 0;\n        const pcsFilter = physicalFilter(el, pcs.filter);\n        return {\n          // DM-1001: track which pseudo emitted this box so the renderer\n          // can paint ::after pseudo-elements AFTER the host's text (the\n          // CSS render order). The earlier \"emit all pseudoBoxes ahead of\n          // text\" gate (line 2370) is right for ::before but wrong for\n          // ::after — NYT's right-edge fade-out overlays the headline\n          // text via `::after { background: linear-gradient(transparent,\n          // white) }`, so painting it under the text leaves the headline\n          // sharp instead of fading.\n          pseudo,\n          x: borderBoxX,\n          y: borderBoxY,\n          width: borderBoxW,\n          height: borderBoxH,\n          backgroundColor: hasBg ? normColor(bgRaw) : void 0,\n          backgroundImage: hasBgImg ? bgImgRaw : void 0,\n          // DM-1121: a gradient pseudo's background-position / -size and its\n          // own opacity steer where the gradient core lands and how strong it\n          // paints (Stripe's keynote glow is an off-center, 45%-opacity pink\n          // radial). Capture position/size only alongside a background-image,\n          // and opacity only when it actually dims the box (< 1).\n          backgroundPosition: hasBgImg ? physicalComputedCssPixelTerms(pcs.backgroundPosition, zoom) : void 0,\n          backgroundSize: hasBgImg ? physicalComputedCssPixelTerms(pcs.backgroundSize, zoom) : void 0,\n          opacity: (function() {\n            var o = parseFloat(pcs.opacity);\n            return isFinite(o) && o < 1 ? o : void 0;\n          })(),\n          borderTopWidth: bwT,\n          borderTopColor: bwT > 0 ? normColor(pcs.borderTopColor) : void 0,\n          borderTopStyle: pcs.borderTopStyle,\n          borderRightWidth: bwR,\n          borderRightColor: bwR > 0 ? normColor(pcs.borderRightColor) : void 0,\n          borderRightStyle: pcs.borderRightStyle,\n          borderBottomWidth: bwB,\n          borderBottomColor: bwB > 0 ? normColor(pcs.borderBottomColor) : void 0,\n          borderBottomStyle: pcs.borderBottomStyle,\n          borderLeftWidth: bwL,\n          borderLeftColor: bwL > 0 ? normColor(pcs.borderLeftColor) : void 0,\n          borderLeftStyle: pcs.borderLeftStyle,\n          borderRadius: physicalNumber(el, pcs.borderRadius),\n          transform: pcsTransform,\n          transformOrigin: pcsTransformOrigin,\n          zIndex: pcsZIndex,\n          filter: pcsFilter\n        };\n      }\n    }\n    return null;\n  };\n  const capturePseudoContent = (el, cs, rect, counterSnapshot) => {\n    const pseudoSegments = [];\n    const pseudoBoxes = [];\n    for (const pseudo of [\"::before\", \"::after\"]) {\n      const pcs = window.getComputedStyle(el, pseudo);\n      const content = pcs.content;\n      if (content == null || content === \"none\" || content === \"normal\" || content === \"\") continue;\n      const opacityNum = parseFloat(pcs.opacity);\n      if (Number.isFinite(opacityNum) && opacityNum === 0) continue;\n      const { text, imageUrl } = parsePseudoContent(content, el, counterSnapshot, pseudo);\n      if (text === \"\" && imageUrl === \"\") {\n        const box = captureEmptyContentBox(el, cs, pseudo, pcs, rect);\n        if (box != null) pseudoBoxes.push(box);\n        continue;\n      }\n      if (imageUrl !== \"\" && text === \"\") {\n        const probeImg = new Image();\n        probeImg.src = imageUrl;\n        const imageZoom = effectiveZoomFor(el);\n        const intrinsicW = (probeImg.naturalWidth || 0) * imageZoom;\n        const intrinsicH = (probeImg.naturalHeight || 0) * imageZoom;\n        let layoutW = (parseFloat(pcs.width) || 0) * imageZoom;\n        let layoutH = (parseFloat(pcs.height) || 0) * imageZoom;\n        if (layoutW <= 0) layoutW = intrinsicW || 24;\n        if (layoutH <= 0) layoutH = intrinsicH || 24;\n        const renderW = intrinsicW > 0 ? intrinsicW : layoutW;\n        const renderH = intrinsicH > 0 ? intrinsicH : layoutH;\n        const elTop2 = rect.top - vp.y + physicalNumber(el, cs.paddingTop) + physicalNumber(el, cs.borderTopWidth);\n        const elLeft2 = rect.left - vp.x + physicalNumber(el, cs.paddingLeft) + physicalNumber(el, cs.borderLeftWidth);\n        const elFontSizeForImg = (parseFloat(pcs.fontSize) || 14) * imageZoom;\n        const lineHImg = (parseFloat(pcs.lineHeight) || (parseFloat(pcs.fontSize) || 14) * 1.2) * imageZoom;\n        const yPosImg = elTop2 + (lineHImg - layoutH) / 2;\n        const imageComposedRaw = composeEffectiveTransform2 != null ? composeEffectiveTransform2(pcs) : pcs.transform || \"none\";\n        const imageComposed = physicalTransform(el, imageComposedRaw);\n        const imageTransform = imageComposed && imageComposed !== \"none\" ? imageComposed : void 0;\n        const imageOpacity = parseFloat(pcs.opacity);\n        pseudoSegments.push({\n          isBefore: pseudo === \"::before\",\n          imageUrl,\n          seg: { text: \"\", x: elLeft2, y: yPosImg, width: layoutW, height: layoutH },\n          renderWidth: renderW,\n          renderHeight: renderH,\n          color: pcs.color,\n          boxMarginLeft: physicalNumber(el, pcs.marginLeft),\n          boxMarginRight: physicalNumber(el, pcs.marginRight),\n          boxBorderLeft: physicalNumber(el, pcs.borderLeftWidth),\n          boxBorderRight: physicalNumber(el, pcs.borderRightWidth),\n          boxPaddingLeft: physicalNumber(el, pcs.paddingLeft),\n          boxPaddingRight: physicalNumber(el, pcs.paddingRight),\n          filter: physicalFilter(el, pcs.filter),\n          opacity: Number.isFinite(imageOpacity) && imageOpacity < 1 ? imageOpacity : void 0,\n          transform: imageTransform,\n          transformOrigin: imageTransform != null ? physicalComputedCssPixelTerms(pcs.transformOrigin || \"\", imageZoom) || void 0 : void 0\n        });\n        continue;\n      }\n      if (text === \"\") continue;\n      const pseudoLayout = probeGeneratedPseudoLayout(el, pseudo, text, pcs);\n      const pPadLMeasured = parseFloat(pcs.paddingLeft) || 0;\n      const pPadRMeasured = parseFloat(pcs.paddingRight) || 0;\n      const pBorLMeasured = parseFloat(pcs.borderLeftWidth) || 0;\n      const pBorRMeasured = parseFloat(pcs.borderRightWidth) || 0;\n      const measuredContentWidth = Math.max(0, pseudoLayout.borderRect.width - pPadLMeasured - pPadRMeasured - pBorLMeasured - pBorRMeasured);\n      const hasUsedBoxWidth = pcs.width !== \"\" && pcs.width !== \"auto\" && (pcs.position === \"absolute\" || pcs.position === \"fixed\");\n      const pseudoWidth = hasUsedBoxWidth ? measuredContentWidth : pseudoLayout.textRect.width > 0 ? pseudoLayout.textRect.width : measuredContentWidth;\n      const elTop = rect.top - vp.y + (parseFloat(cs.paddingTop) || 0) + (parseFloat(cs.borderTopWidth) || 0);\n      const elLeft = rect.left - vp.x + (parseFloat(cs.paddingLeft) || 0) + (parseFloat(cs.borderLeftWidth) || 0);\n      const elFontSize = parseFloat(pcs.fontSize) || 14;\n      const lineH = parseFloat(pcs.lineHeight) || elFontSize * 1.2;\n      const pseudoMetrics = measureFontMetrics(pcs);\n      let xPos;\n      let yPos;\n      let pseudoIsPositioned = false;\n      if (pcs.position === \"absolute\" || pcs.position === \"fixed\") {\n        const pcsLeft = parseFloat(pcs.left);\n        const pcsTop = parseFloat(pcs.top);\n        const pcsRight = parseFloat(pcs.right);\n        const pcsBottom = parseFloat(pcs.bottom);\n        const paddingBoxLeft = rect.left - vp.x + (parseFloat(cs.borderLeftWidth) || 0);\n        const paddingBoxTop = rect.top - vp.y + (parseFloat(cs.borderTopWidth) || 0);\n        const paddingBoxRight = rect.right - vp.x - (parseFloat(cs.borderRightWidth) || 0);\n        const paddingBoxBottom = rect.bottom - vp.y - (parseFloat(cs.borderBottomWidth) || 0);\n        const pPadL = parseFloat(pcs.paddingLeft) || 0;\n        const pPadR = parseFloat(pcs.paddingRight) || 0;\n        const pPadT = parseFloat(pcs.paddingTop) || 0;\n        const pPadB = parseFloat(pcs.paddingBottom) || 0;\n        const pBorL = parseFloat(pcs.borderLeftWidth) || 0;\n        const pBorR = parseFloat(pcs.borderRightWidth) || 0;\n        const pBorT = parseFloat(pcs.borderTopWidth) || 0;\n        const pBorB = parseFloat(pcs.borderBottomWidth) || 0;\n        if (!isNaN(pcsLeft)) xPos = paddingBoxLeft + pcsLeft;\n        else if (!isNaN(pcsRight)) xPos = paddingBoxRight - pcsRight - pseudoWidth - pPadL - pPadR - pBorL - pBorR;\n        else xPos = paddingBoxLeft;\n        if (!isNaN(pcsTop)) yPos = paddingBoxTop + pcsTop;\n        else if (!isNaN(pcsBottom)) yPos = paddingBoxBottom - pcsBottom - lineH - pPadT - pPadB - pBorT - pBorB;\n        else yPos = paddingBoxTop;\n        xPos += pPadL + pBorL;\n        yPos += pPadT + pBorT;\n        yPos += (lineH - elFontSize) / 2;\n        pseudoIsPositioned = true;\n      } else {\n        yPos = elTop + (lineH - elFontSize) / 2;\n        const pcsMarginL = parseFloat(pcs.marginLeft) || 0;\n        const pcsBorderL = parseFloat(pcs.borderLeftWidth) || 0;\n        const pcsPaddingL = parseFloat(pcs.paddingLeft) || 0;\n        const justify = cs.justifyContent || \"\";\n        const hostFlex = cs.display === \"flex\" || cs.display === \"inline-flex\";\n        const pushesEnd = justify.indexOf(\"space-between\") >= 0 || justify.indexOf(\"flex-end\") >= 0 || justify === \"end\" || justify === \"right\";\n        if (pseudo === \"::before\") {\n          xPos = elLeft + pcsMarginL + pcsBorderL + pcsPaddingL;\n        } else if (hostFlex && pushesEnd) {\n          const contentRight = rect.right - vp.x - (parseFloat(cs.borderRightWidth) || 0) - (parseFloat(cs.paddingRight) || 0);\n          xPos = contentRight - pseudoWidth;\n        } else {\n          xPos = elLeft + rect.width - pseudoWidth - 2 * (parseFloat(cs.paddingRight) || 0);\n        }\n      }\n      const pseudoSeg = {\n        text,\n        x: xPos,\n        y: yPos,\n        width: pseudoWidth,\n        height: elFontSize,\n        // Carry pseudo-specific typography so the renderer can respect\n        // per-pseudo color, font-size, font-weight, font-family, font-style\n        // (CSS lets pseudos style independently of their parent — Slashdot's\n        // \"Most Discussed\" carousel heading is a ::after that's italic+bordered\n        // on a non-italic host div).\n        color: pcs.color,\n        fontSize: elFontSize,\n        fontWeight: pcs.fontWeight,\n        fontFamily: pcs.fontFamily,\n        fontStyle: pcs.fontStyle,\n        fontAscent: pseudoMetrics.ascent\n      };\n      const pseudoBgRaw = pcs.backgroundColor;\n      const pseudoBgColor = pseudoBgRaw && pseudoBgRaw !== \"\" && pseudoBgRaw !== \"rgba(0, 0, 0, 0)\" && pseudoBgRaw !== \"transparent\" ? normColor(pseudoBgRaw) : \"\";\n      const pseudoBR = parseFloat(pcs.borderRadius) || 0;\n      const bwTop = parseFloat(pcs.borderTopWidth) || 0;\n      const bwRight = parseFloat(pcs.borderRightWidth) || 0;\n      const bwBottom = parseFloat(pcs.borderBottomWidth) || 0;\n      const bwLeft = parseFloat(pcs.borderLeftWidth) || 0;\n      const bwUniform = bwTop > 0 && bwRight === bwTop && bwBottom === bwTop && bwLeft === bwTop;\n      const pseudoBC = bwUniform ? normColor(pcs.borderTopColor) : \"\";\n      const colorIsPaintable = (raw) => raw !== \"\" && raw !== \"rgba(0, 0, 0, 0)\" && raw !== \"transparent\";\n      const sideBorderTopColor = bwTop > 0 ? normColor(pcs.borderTopColor) : \"\";\n      const sideBorderRightColor = bwRight > 0 ? normColor(pcs.borderRightColor) : \"\";\n      const sideBorderBottomColor = bwBottom > 0 ? normColor(pcs.borderBottomColor) : \"\";\n      const sideBorderLeftColor = bwLeft > 0 ? normColor(pcs.borderLeftColor) : \"\";\n      const hasPerSideBorder = !bwUniform && (bwTop > 0 && colorIsPaintable(sideBorderTopColor) || bwRight > 0 && colorIsPaintable(sideBorderRightColor) || bwBottom > 0 && colorIsPaintable(sideBorderBottomColor) || bwLeft > 0 && colorIsPaintable(sideBorderLeftColor));\n      const pseudoBgImgRaw = pcs.backgroundImage;\n      const hasPseudoBgImg = hasCssValue(pseudoBgImgRaw);\n      const pseudoComposedRaw = composeEffectiveTransform2 != null ? composeEffectiveTransform2(pcs) : pcs.transform || \"none\";\n      const pseudoComposed = physicalTransform(el, pseudoComposedRaw);\n      const pseudoTransform = pseudoComposed && pseudoComposed !== \"none\" ? pseudoComposed : void 0;\n      const pseudoTransformOrigin = pseudoTransform != null ? physicalComputedCssPixelTerms(pcs.transformOrigin || \"\", effectiveZoomFor(el)) || void 0 : void 0;\n      const pseudoFilter = physicalFilter(el, pcs.filter);\n      const pseudoOpacityValue = parseFloat(pcs.opacity);\n      const pseudoOpacity = Number.isFinite(pseudoOpacityValue) && pseudoOpacityValue < 1 ? pseudoOpacityValue : void 0;\n      let pseudoBoxStyles = null;\n      if (pseudoBgColor !== \"\" || hasPseudoBgImg || pseudoBR > 0 || bwUniform && pseudoBC !== \"\" && pseudoBC !== \"rgba(0, 0, 0, 0)\" || hasPerSideBorder || pseudoTransform != null || pseudoFilter != null || pseudoOpacity != null) {\n        pseudoBoxStyles = {\n          padL: parseFloat(pcs.paddingLeft) || 0,\n          padR: parseFloat(pcs.paddingRight) || 0,\n          padT: parseFloat(pcs.paddingTop) || 0,\n          padB: parseFloat(pcs.paddingBottom) || 0,\n          borL: bwLeft,\n          borR: bwRight,\n          borT: bwTop,\n          borB: bwBottom,\n          // Inline-box bg paints at line-height, not at font-size — so\n          // the box's vertical extent is lineH + padding + border (not\n          // fontSize). Capture lineH alongside the metrics; the post-\n          // injection block uses it to compute boxH and boxY (centered\n          // on the line box).\n          lineH,\n          fontSize: elFontSize,\n          measuredWidth: pseudoLayout.borderRect.width,\n          measuredHeight: pseudoLayout.borderRect.height,\n          backgroundColor: pseudoBgColor !== \"\" ? pseudoBgColor : void 0,\n          backgroundImage: hasPseudoBgImg ? pseudoBgImgRaw : void 0,\n          borderRadius: pseudoBR > 0 ? pseudoBR : void 0,\n          borderWidth: bwUniform ? bwTop : void 0,\n          borderColor: bwUniform && pseudoBC !== \"\" && pseudoBC !== \"rgba(0, 0, 0, 0)\" ? pseudoBC : void 0,\n          transform: pseudoTransform,\n          transformOrigin: pseudoTransformOrigin,\n          filter: pseudoFilter,\n          opacity: pseudoOpacity,\n          // Per-side colors. Renderer reads these when no uniform border\n          // is set and emits a `<line>` for each side whose width > 0 and\n          // color is paintable. Undefined when the side has no visible\n          // border, keeping the captured tree compact in the common case.\n          borderTopColor: hasPerSideBorder && bwTop > 0 && colorIsPaintable(sideBorderTopColor) ? sideBorderTopColor : void 0,\n          borderRightColor: hasPerSideBorder && bwRight > 0 && colorIsPaintable(sideBorderRightColor) ? sideBorderRightColor : void 0,\n          borderBottomColor: hasPerSideBorder && bwBottom > 0 && colorIsPaintable(sideBorderBottomColor) ? sideBorderBottomColor : void 0,\n          borderLeftColor: hasPerSideBorder && bwLeft > 0 && colorIsPaintable(sideBorderLeftColor) ? sideBorderLeftColor : void 0\n        };\n      }\n      let allPua = text.length > 0;\n      for (let _ci = 0; _ci < text.length; ) {\n        const cp = text.codePointAt(_ci);\n        const inPua = cp >= 57344 && cp <= 63743 || cp >= 983040 && cp <= 1048573 || cp >= 1048576 && cp <= 1114109;\n        if (!inPua) {\n          allPua = false;\n          break;\n        }\n        _ci += cp > 65535 ? 2 : 1;\n      }\n      if (textNeedsRaster(text) || allPua) {\n        if (allPua && !textNeedsRaster(text)) {\n          pseudoSeg.rasterRect = {\n            x: rect.left - vp.x,\n            y: rect.top - vp.y,\n            width: rect.width,\n            height: rect.height\n          };\n        } else {\n          pseudoSeg.rasterRect = {\n            x: pseudoSeg.x,\n            y: elTop,\n            width: pseudoWidth,\n            height: lineH\n          };\n          const emojiInner = text.replace(/^[\"']|[\"']$/g, \"\").replace(/^\\s+|\\s+$/g, \"\");\n          if (emojiInner.length > 0) {\n            const emojiSide = Math.min(measureGlyphAdvance(emojiInner, pcs), elFontSize * 1.4);\n            if (emojiSide > lineH) pseudoSeg.rasterEmojiSide = emojiSide;\n          }\n        }\n      }\n      pseudoSegments.push({\n        isBefore: pseudo === \"::before\",\n        seg: pseudoSeg,\n        color: pcs.color,\n        isPositioned: pseudoIsPositioned,\n        boxStyles: pseudoBoxStyles\n      });\n    }\n    return { pseudoSegments, pseudoBoxes };\n  };\n  return { capturePseudoContent };\n};\nvar createPseudoContentHandler = (dependencies) => buildPseudoContentHandler(dependencies);\n\n// src/capture/script/walker/input-value.ts\nvar SKIP_VALUE_TYPES = /* @__PURE__ */ new Set([\n  \"range\",\n  \"color\",\n  \"checkbox\",\n  \"radio\",\n  \"file\",\n  \"image\",\n  \"hidden\",\n  \"date\",\n  \"time\",\n  \"datetime-local\",\n  \"month\",\n  \"week\"\n]);\nvar NOT_APPLIED = { applied: false };\nvar createInputValueHandler = ({ vp, normColor, measureFontMetrics }) => {\n  const captureInputValue = (el, cs, tag, rect) => {\n    if (tag !== \"input\" && tag !== \"textarea\") return NOT_APPLIED;\n    const inputType = tag === \"input\" ? el.type || \"text\" : \"\";\n    if (SKIP_VALUE_TYPES.has(inputType)) return NOT_APPLIED;\n    let isPlaceholderCapture = false;\n    let text = \"\";\n    if (!el.value) {\n      const placeholder = el.getAttribute && el.getAttribute(\"placeholder\");\n      if (placeholder != null && placeholder !== \"\") {\n        isPlaceholderCapture = true;\n        text = placeholder;\n      } else {\n        return NOT_APPLIED;\n      }\n    } else {\n      text = inputType === \"password\" ? \"\\u2022\".repeat(el.value.length) : el.value;\n    }\n    const pl = parseFloat(cs.paddingLeft) || 0;\n    const pt = parseFloat(cs.paddingTop) || 0;\n    const pr = parseFloat(cs.paddingRight) || 0;\n    const pb = parseFloat(cs.paddingBottom) || 0;\n    const { left: bl, top: bt, right: br, bottom: bb } = sideWidths(cs, \"border\", \"Width\");\n    let textLeft = rect.left - vp.x + bl + pl;\n    let textTop = rect.top - vp.y + bt + pt;\n    const textHeight = parseFloat(cs.lineHeight) || parseFloat(cs.fontSize) * 1.2;\n    const textWidth = rect.width - bl * 2 - pl * 2;\n    const display = cs.display;\n    const isFlexLike = display === \"flex\" || display === \"inline-flex\" || display === \"grid\" || display === \"inline-grid\";\n    const isSingleLineInput = tag === \"input\";\n    if (isSingleLineInput || isFlexLike && cs.alignItems === \"center\") {\n      const contentH = rect.height - bt - bb - pt - pb;\n      if (contentH > textHeight + 0.5) {\n        textTop = rect.top - vp.y + bt + pt + (contentH - textHeight) / 2;\n      }\n    }\n    const metrics = measureFontMetrics(cs);\n    const fontAscent = metrics.ascent;\n    const fontDescent = metrics.descent;\n    const fontH = fontAscent + fontDescent;\n    const textTopLineBox = textTop;\n    if (cs.lineHeight !== \"normal\" && textHeight > fontH + 0.5) {\n      textTop += (textHeight - fontH) / 2;\n    } else if (fontH > textHeight + 0.5) {\n      textTop -= (fontH - textHeight) / 2;\n    }\n    let textSegments;\n    let inputXOffsets;\n    if (text.length > 0 && tag === \"input\") {\n      const probe = document.createElement(\"span\");\n      probe.style.position = \"absolute\";\n      probe.style.left = \"-9999px\";\n      probe.style.top = \"-9999px\";\n      probe.style.visibility = \"hidden\";\n      probe.style.whiteSpace = \"pre\";\n      probe.style.fontFamily = cs.fontFamily;\n      probe.style.fontSize = cs.fontSize;\n      probe.style.fontWeight = cs.fontWeight;\n      probe.style.fontStyle = cs.fontStyle;\n      probe.style.letterSpacing = cs.letterSpacing;\n      probe.style.fontKerning = cs.fontKerning;\n      probe.style.fontVariationSettings = cs.fontVariationSettings;\n      probe.style.fontOpticalSizing = cs.fontOpticalSizing;\n      probe.style.fontFeatureSettings = cs.fontFeatureSettings;\n      probe.textContent = text;\n      document.body.appendChild(probe);\n      const probeNode = probe.firstChild;\n      if (probeNode != null) {\n        const probeBox = probe.getBoundingClientRect();\n        const probeOriginX = probeBox.left;\n        const xs = [];\n        let i = 0;\n        while (i < text.length) {\n          const code = text.charCodeAt(i);\n          const isHigh = code >= 55296 && code <= 56319 && i + 1 < text.length;\n          const step = isHigh ? 2 : 1;\n          const rng = document.createRange();\n          rng.setStart(probeNode, i);\n          rng.setEnd(probeNode, i + step);\n          const cr = rng.getBoundingClientRect();\n          const left = cr.left - probeOriginX + textLeft;\n          for (let k = 0; k < step; k++) xs.push(left);\n          i += step;\n        }\n        const contentBoxW = rect.width - bl - br - pl - pr;\n        const probeW = probeBox.width;\n        const slack = contentBoxW - probeW;\n        const align = cs.textAlign;\n        const dir = cs.direction;\n        let shift = 0;\n        if (slack > 0) {\n          if (align === \"center\") shift = slack / 2;\n          else if (align === \"right\" || align === \"end\" && dir !== \"rtl\" || align === \"start\" && dir === \"rtl\") shift = slack;\n        }\n        if (shift !== 0) {\n          textLeft += shift;\n          for (let k = 0; k < xs.length; k++) xs[k] += shift;\n        }\n        inputXOffsets = xs;\n      }\n      document.body.removeChild(probe);\n    }\n    if (text.length > 0 && tag === \"textarea\") {\n      const contentBoxW = rect.width - bl - br - pl - pr;\n      const contentBoxH = rect.height - bt - bb - pt - pb;\n      const probe = document.createElement(\"div\");\n      probe.style.position = \"absolute\";\n      probe.style.left = \"0\";\n      probe.style.top = \"-100000px\";\n      probe.style.visibility = \"hidden\";\n      probe.style.boxSizing = \"content-box\";\n      probe.style.width = contentBoxW + \"px\";\n      probe.style.padding = \"0\";\n      probe.style.margin = \"0\";\n      probe.style.border = \"0\";\n      probe.style.fontFamily = cs.fontFamily;\n      probe.style.fontSize = cs.fontSize;\n      probe.style.fontWeight = cs.fontWeight;\n      probe.style.fontStyle = cs.fontStyle;\n      probe.style.fontVariationSettings = cs.fontVariationSettings;\n      probe.style.fontOpticalSizing = cs.fontOpticalSizing;\n      probe.style.fontFeatureSettings = cs.fontFeatureSettings;\n      probe.style.fontKerning = cs.fontKerning;\n      probe.style.letterSpacing = cs.letterSpacing;\n      probe.style.wordSpacing = cs.wordSpacing;\n      probe.style.lineHeight = cs.lineHeight;\n      probe.style.tabSize = cs.tabSize;\n      probe.style.textAlign = cs.textAlign;\n      probe.style.direction = cs.direction;\n      probe.style.whiteSpace = \"pre-wrap\";\n      probe.style.wordWrap = cs.wordWrap || \"normal\";\n      probe.style.overflowWrap = cs.overflowWrap || \"normal\";\n      probe.style.wordBreak = cs.wordBreak || \"normal\";\n      probe.style.hyphens = cs.hyphens || \"manual\";\n      probe.textContent = text;\n      document.body.appendChild(probe);\n      const probeNode = probe.firstChild;\n      if (probeNode != null) {\n        const probeBox = probe.getBoundingClientRect();\n        const probeOriginX = probeBox.left;\n        const probeOriginY = probeBox.top;\n        const lines = [];\n        let cur = null;\n        for (let i = 0; i < text.length; i++) {\n          const ch = text[i];\n          if (ch === \"\\n\") {\n            if (cur != null) {\n              lines.push(cur);\n              cur = null;\n            }\n            continue;\n          }\n          const code = text.charCodeAt(i);\n          const isHigh = code >= 55296 && code <= 56319 && i + 1 < text.length;\n          const step = isHigh ? 2 : 1;\n          const rng = document.createRange();\n          rng.setStart(probeNode, i);\n          rng.setEnd(probeNode, i + step);\n          const cr = rng.getBoundingClientRect();\n          if (cr.width === 0 && cr.height === 0) {\n            i += step - 1;\n            continue;\n          }\n          const charLeft = cr.left - probeOriginX;\n          const charTop = cr.top - probeOriginY;\n          const charRight = cr.right - probeOriginX;\n          const charBottom = cr.bottom - probeOriginY;\n          if (cur == null || charTop - cur.top > Math.max(1, (cur.bottom - cur.top) * 0.5)) {\n            if (cur != null) lines.push(cur);\n            cur = { text: \"\", xOffsets: [], top: charTop, bottom: charBottom, left: charLeft, right: charRight };\n          }\n          for (let k = 0; k < step; k++) {\n            cur.text += text[i + k];\n            cur.xOffsets.push(textLeft + charLeft);\n          }\n          if (charRight > cur.right) cur.right = charRight;\n          if (charBottom > cur.bottom) cur.bottom = charBottom;\n          i += step - 1;\n        }\n        if (cur != null) lines.push(cur);\n        textSegments = lines.map((ln) => ({\n          text: ln.text,\n          x: textLeft + ln.left,\n          // Snap to a whole pixel: Chrome positions glyphs with SUBPIXEL\n          // precision horizontally only — vertically the text origin is rounded\n          // to an integer device pixel before rasterization. Measured directly:\n          // a box at top 40 / 140.25 / 240.5 / 340.75 paints its first ink row\n          // at 45 / 145 / 246 / 346 — always round(top) + a constant, and always\n          // an integer row (identical for a <textarea> and a plain <div>, so this\n          // is glyph rasterization, not a scroll-container effect). A textarea\n          // whose border box lands on a fractional y (here .4375, from ordinary\n          // page flow) therefore had every line rendered up to a pixel off.\n          // The renderer already rounds the ascent it adds to reach the baseline\n          // (`text-to-path.ts`), so rounding the line top rounds the baseline.\n          y: Math.round(textTopLineBox + ln.top),\n          width: ln.right - ln.left,\n          height: ln.bottom - ln.top,\n          xOffsets: ln.xOffsets\n        }));\n      }\n      document.body.removeChild(probe);\n      void contentBoxH;\n    }\n    let placeholderColor;\n    let placeholderFontStyle;\n    let placeholderFontWeight;\n    if (isPlaceholderCapture) {\n      const phCs = window.getComputedStyle(el, \"::placeholder\");\n      placeholderColor = normColor(phCs.color || cs.color);\n      placeholderFontStyle = phCs.fontStyle;\n      placeholderFontWeight = phCs.fontWeight;\n    }\n    return {\n      applied: true,\n      text,\n      textLeft,\n      textTop,\n      textHeight,\n      textWidth,\n      fontAscent,\n      fontDescent,\n      inputXOffsets,\n      textSegments,\n      isPlaceholderCapture,\n      placeholderColor,\n      placeholderFontStyle,\n      placeholderFontWeight\n    };\n  };\n  return { captureInputValue };\n};\n\n// src/capture/script/vertical-orientation.generated.ts\nvar MIXED_VERTICAL_UPRIGHT_RANGES = [\n  [167, 167],\n  [169, 169],\n  [174, 174],\n  [177, 177],\n  [188, 190],\n  [215, 215],\n  [247, 247],\n  [746, 747],\n  [4352, 4607],\n  [5121, 5759],\n  [6320, 6399],\n  [8214, 8214],\n  [8216, 8217],\n  [8220, 8221],\n  [8224, 8225],\n  [8240, 8241],\n  [8251, 8252],\n  [8258, 8258],\n  [8263, 8265],\n  [8273, 8273],\n  [8293, 8293],\n  [8413, 8416],\n  [8418, 8420],\n  [8448, 8449],\n  [8451, 8457],\n  [8463, 8463],\n  [8467, 8468],\n  [8470, 8471],\n  [8478, 8483],\n  [8485, 8485],\n  [8487, 8487],\n  [8489, 8489],\n  [8494, 8494],\n  [8501, 8511],\n  [8517, 8522],\n  [8524, 8525],\n  [8527, 8585],\n  [8588, 8591],\n  [8734, 8734],\n  [8756, 8757],\n  [8960, 8967],\n  [8972, 8991],\n  [8996, 9003],\n  [9085, 9114],\n  [9150, 9165],\n  [9167, 9167],\n  [9169, 9179],\n  [9186, 9250],\n  [9252, 9471],\n  [9632, 9753],\n  [9760, 10087],\n  [10102, 10131],\n  [11026, 11055],\n  [11088, 11097],\n  [11159, 11159],\n  [11192, 11217],\n  [11219, 11243],\n  [11248, 11263],\n  [11856, 11857],\n  [11904, 42191],\n  [43360, 43391],\n  [44032, 55295],\n  [57344, 64255],\n  [65040, 65055],\n  [65072, 65096],\n  [65104, 65111],\n  [65113, 65122],\n  [65127, 65135],\n  [65281, 65292],\n  [65294, 65307],\n  [65311, 65376],\n  [65504, 65511],\n  [65520, 65528],\n  [65532, 65533],\n  [67968, 67999],\n  [71040, 71167],\n  [72192, 72383],\n  [77824, 83583],\n  [94176, 101887],\n  [110576, 111359],\n  [118464, 118735],\n  [118784, 119295],\n  [119520, 119679],\n  [120832, 121519],\n  [126976, 129023],\n  [129280, 129791],\n  [131072, 196605],\n  [196608, 262141],\n  [983040, 1048573],\n  [1048576, 1114109]\n];\n\n// src/capture/script/walker/text-segments.ts\nvar computeElementRaster = (el, cs, tag, rect, vp) => {\n  void el;\n  void cs;\n  void tag;\n  void rect;\n  void vp;\n  return void 0;\n};\nvar mathItalicChar = (ch) => {\n  const code = ch.codePointAt(0);\n  if (code == null) return ch;\n  if (code >= 65 && code <= 90) return String.fromCodePoint(119860 + (code - 65));\n  if (code >= 97 && code <= 122) {\n    if (code === 104) return \"\\u210E\";\n    return String.fromCodePoint(119886 + (code - 97));\n  }\n  if (code >= 913 && code <= 937) return String.fromCodePoint(120546 + (code - 913));\n  if (code >= 945 && code <= 969) return String.fromCodePoint(120572 + (code - 945));\n  switch (code) {\n    case 8706:\n      return String.fromCodePoint(120597);\n    // ∂ → italic partial differential\n    case 1013:\n      return String.fromCodePoint(120598);\n    // ϵ (lunate) → italic epsilon symbol\n    case 977:\n      return String.fromCodePoint(120599);\n    // ϑ (theta sym) → italic theta symbol\n    case 1008:\n      return String.fromCodePoint(120600);\n    // ϰ (kappa sym) → italic kappa symbol\n    case 981:\n      return String.fromCodePoint(120601);\n    // ϕ (phi sym) → italic phi symbol\n    case 1009:\n      return String.fromCodePoint(120602);\n    // ϱ (rho sym) → italic rho symbol\n    case 982:\n      return String.fromCodePoint(120603);\n    // ϖ (pi sym) → italic pi symbol\n    case 8711:\n      return String.fromCodePoint(120571);\n    // ∇ (nabla) → italic nabla (upper-block tail)\n    default:\n      return ch;\n  }\n};\nvar _RE_LETTER = /\\p{L}/u;\nvar _RE_WORD_CHAR = /[\\p{L}\\p{M}\\p{N}]/u;\nvar _MIDWORD_CONNECTORS = \"'\\u2019\\xB7\\u0387\\u05F4\";\nvar TITLECASE_DIGRAPHS = {\n  \"\\u01C4\": \"\\u01C5\",\n  \"\\u01C6\": \"\\u01C5\",\n  \"\\u01C7\": \"\\u01C8\",\n  \"\\u01C9\": \"\\u01C8\",\n  \"\\u01CA\": \"\\u01CB\",\n  \"\\u01CC\": \"\\u01CB\",\n  \"\\u01F1\": \"\\u01F2\",\n  \"\\u01F3\": \"\\u01F2\"\n};\nvar capitalizeCss = (s) => {\n  let atWordStart = true;\n  let out = \"\";\n  for (const ch of s) {\n    if (atWordStart && _RE_LETTER.test(ch)) {\n      out += TITLECASE_DIGRAPHS[ch] || ch.toUpperCase();\n    } else {\n      out += ch;\n    }\n    atWordStart = !_RE_WORD_CHAR.test(ch) && _MIDWORD_CONNECTORS.indexOf(ch) < 0;\n  }\n  return out;\n};\nvar transformTextWithSourceSpans = (source, transform, lang) => {\n  const out = [];\n  let atWordStart = true;\n  for (let i = 0; i < source.length; ) {\n    const cp = source.codePointAt(i);\n    const sourceText = String.fromCodePoint(cp);\n    let rendered = sourceText;\n    if (transform === \"uppercase\") rendered = lang ? sourceText.toLocaleUpperCase(lang) : sourceText.toUpperCase();\n    else if (transform === \"lowercase\") rendered = lang ? sourceText.toLocaleLowerCase(lang) : sourceText.toLowerCase();\n    else if (transform === \"capitalize\" && atWordStart && _RE_LETTER.test(sourceText)) {\n      rendered = TITLECASE_DIGRAPHS[sourceText] || (lang ? sourceText.toLocaleUpperCase(lang) : sourceText.toUpperCase());\n    }\n    out.push({ sourceStart: i, sourceEnd: i + sourceText.length, sourceText, rendered });\n    atWordStart = !_RE_WORD_CHAR.test(sourceText) && _MIDWORD_CONNECTORS.indexOf(sourceText) < 0;\n    i += sourceText.length;\n  }\n  const joined = out.map((part) => part.rendered).join(\"\");\n  const whole = transform === \"uppercase\" ? lang ? source.toLocaleUpperCase(lang) : source.toUpperCase() : transform === \"lowercase\" ? lang ? source.toLocaleLowerCase(lang) : source.toLowerCase() : transform === \"capitalize\" ? capitalizeCss(source) : source;\n  if (whole.length === joined.length && whole !== joined) {\n    let offset = 0;\n    for (const part of out) {\n      part.rendered = whole.slice(offset, offset + part.rendered.length);\n      offset += part.rendered.length;\n    }\n  }\n  return out;\n};\nvar isShapingTransparentControl = (ch) => ch === \"\\u200C\" || ch === \"\\u200D\";\nvar isMixedVerticalUpright = (cp) => {\n  if (cp == null) return false;\n  let lo = 0;\n  let hi = MIXED_VERTICAL_UPRIGHT_RANGES.length - 1;\n  while (lo <= hi) {\n    const mid = lo + hi >>> 1;\n    const range = MIXED_VERTICAL_UPRIGHT_RANGES[mid];\n    if (cp < range[0]) hi = mid - 1;\n    else if (cp > range[1]) lo = mid + 1;\n    else return true;\n  }\n  return false;\n};\nvar resolveCharOrientation = (ch, textOrientation) => {\n  if (textOrientation === \"upright\") return \"upright\";\n  if (textOrientation === \"sideways\") return \"rotated\";\n  return isMixedVerticalUpright(ch.codePointAt(0)) ? \"upright\" : \"rotated\";\n};\nvar buildTextSegmentsHandler = ({ vp, measureFontMetrics, rasterCandidates, normColor, markGetsDottedCircle, finalizeLineClampText }) => {\n  const finishLineClamp = (el, cs, result) => finalizeLineClampText == null ? result : finalizeLineClampText(el, cs, result);\n  const captureVerticalTextSegments = (el, cs) => {\n    const wm = cs.writingMode;\n    const textOrientation = cs.textOrientation || \"mixed\";\n    const isSideways = wm === \"sideways-rl\" || wm === \"sideways-lr\";\n    const effectiveTextOrientation = isSideways ? \"sideways\" : textOrientation;\n    const textSegments = [];\n    let text = \"\";\n    let minLeft = Infinity;\n    let minTop = Infinity;\n    let maxRight = -Infinity;\n    let maxBottom = -Infinity;\n    const _vertCanvas = document.createElement(\"canvas\");\n    const _vertCtx = _vertCanvas.getContext(\"2d\");\n    _vertCtx.font = `${cs.fontStyle || \"normal\"} ${cs.fontWeight || \"400\"} ${cs.fontSize} ${cs.fontFamily}`;\n    const measureNaturalWidth = (ch) => _vertCtx.measureText(ch).width;\n    const allChars = [];\n    for (const node of el.childNodes) {\n      if (node.nodeType !== Node.TEXT_NODE) continue;\n      const sourceRaw = node.textContent || \"\";\n      const tt = cs.textTransform;\n      const mapped = transformTextWithSourceSpans(sourceRaw, tt, cs.lang || el.lang || \"\");\n      const raw = mapped.map((part) => part.rendered).join(\"\");\n      if (!raw.trim()) continue;\n      text += raw.trim() + \" \";\n      for (const part of mapped) {\n        const r = document.createRange();\n        r.setStart(node, part.sourceStart);\n        r.setEnd(node, part.sourceEnd);\n        const cr = r.getBoundingClientRect();\n        const ch = part.rendered;\n        const isWs = /^\\s+$/.test(part.sourceText);\n        if (cr.height === 0 && (cr.width === 0 || isWs)) continue;\n        allChars.push({ ch, x: cr.left, y: cr.top, w: cr.width, h: cr.height, naturalW: measureNaturalWidth(ch) });\n      }\n    }\n    if (allChars.length === 0) {\n      return { applied: true, text: text.trim(), textSegments };\n    }\n    const tcu = cs.textCombineUpright || cs.webkitTextCombine || \"\";\n    const isCombineAll = tcu === \"all\";\n    if (isCombineAll) {\n      const metricsC = measureFontMetrics(cs);\n      let cellTop = Infinity, cellBot = -Infinity, minX = Infinity, maxX = -Infinity;\n      for (const c of allChars) {\n        cellTop = Math.min(cellTop, c.y);\n        cellBot = Math.max(cellBot, c.y + c.h);\n        minX = Math.min(minX, c.x);\n        maxX = Math.max(maxX, c.x + c.w);\n      }\n      const combinedText = allChars.map((c) => c.ch).join(\"\").replace(/[\\t\\n\\r]/g, \" \");\n      const xOffsets = allChars.map((c) => c.x - minX);\n      textSegments.push({\n        text: combinedText,\n        x: minX - vp.x,\n        y: cellTop - vp.y,\n        width: maxX - minX,\n        height: cellBot - cellTop,\n        verticalWritingMode: wm,\n        verticalCombineUpright: true,\n        verticalCombineXOffsets: xOffsets,\n        fontAscent: metricsC.ascent\n      });\n      return {\n        applied: true,\n        text: combinedText,\n        textSegments,\n        textLeft: minX - vp.x,\n        textTop: cellTop - vp.y,\n        textWidth: maxX - minX,\n        textHeight: cellBot - cellTop,\n        fontAscent: metricsC.ascent,\n        fontDescent: metricsC.descent\n      };\n    }\n    const columns = [];\n    let curCol = null;\n    for (const c of allChars) {\n      if (curCol == null || Math.abs(c.x - curCol.x) > 1) {\n        if (curCol != null) columns.push(curCol);\n        curCol = { x: c.x, width: c.w, chars: [c] };\n      } else {\n        curCol.chars.push(c);\n      }\n    }\n    if (curCol != null) columns.push(curCol);\n    const metrics = measureFontMetrics(cs);\n    for (const col of columns) {\n      const colTop = col.chars[0].y;\n      const colBot = col.chars[col.chars.length - 1].y + col.chars[col.chars.length - 1].h;\n      const visualText = col.chars.map((c) => c.ch).join(\"\").replace(/[\\t\\n\\r]/g, \" \");\n      if (visualText.replace(/\\s/g, \"\") === \"\") continue;\n      const yOffsets = [];\n      const verticalOrientations = [];\n      const verticalAdvances = [];\n      const verticalNaturalWidths = [];\n      for (const c of col.chars) {\n        for (let k = 0; k < c.ch.length; k++) {\n          yOffsets.push(c.y - vp.y);\n          verticalOrientations.push(resolveCharOrientation(c.ch, effectiveTextOrientation));\n          verticalAdvances.push(c.h);\n          verticalNaturalWidths.push(c.naturalW);\n        }\n      }\n      textSegments.push({\n        text: visualText,\n        x: col.x - vp.x,\n        y: colTop - vp.y,\n        width: col.width,\n        height: colBot - colTop,\n        verticalWritingMode: wm,\n        verticalOrientations,\n        yOffsets,\n        verticalAdvances,\n        verticalNaturalWidths,\n        fontAscent: metrics.ascent\n      });\n      minLeft = Math.min(minLeft, col.x);\n      minTop = Math.min(minTop, colTop);\n      maxRight = Math.max(maxRight, col.x + col.width);\n      maxBottom = Math.max(maxBottom, colBot);\n    }\n    return {\n      applied: true,\n      text: text.trim(),\n      textSegments,\n      textLeft: minLeft - vp.x,\n      textTop: minTop - vp.y,\n      textWidth: maxRight - minLeft,\n      textHeight: maxBottom - minTop,\n      fontAscent: metrics.ascent,\n      fontDescent: metrics.descent\n    };\n  };\n  const buildFirstLetterSegment = (firstLetterChars, flStyle, hasInitialLetter, el, cs) => {\n    const styledText = firstLetterChars.map((c) => c.ch).join(\"\");\n    const minL = Math.min(...firstLetterChars.map((c) => c.left));\n    const maxR = Math.max(...firstLetterChars.map((c) => c.right));\n    const minT = Math.min(...firstLetterChars.map((c) => c.top));\n    const maxB = Math.max(...firstLetterChars.map((c) => c.bottom));\n    const xoff = [];\n    for (const c of firstLetterChars) {\n      for (let k = 0; k < c.ch.length; k++) xoff.push(c.left - vp.x);\n    }\n    const flMetrics = measureFontMetrics(flStyle);\n    let effectiveFs = parseFloat(flStyle.fontSize) || void 0;\n    let effectiveAscent = flMetrics.ascent;\n    let styledSegY = minT - vp.y;\n    const flFloatSize = flStyle.float || flStyle.cssFloat || \"\";\n    const flIsFloatSize = flFloatSize === \"left\" || flFloatSize === \"right\";\n    if (hasInitialLetter) {\n      const probeCanvas = document.createElement(\"canvas\");\n      const probeCtx = probeCanvas.getContext(\"2d\");\n      probeCtx.font = `${flStyle.fontStyle || \"normal\"} ${flStyle.fontWeight || \"400\"} 100px ${flStyle.fontFamily || \"serif\"}`;\n      const probeM = probeCtx.measureText(styledText);\n      const naturalWidthAt100 = probeM.width;\n      const ascentRatio = probeM.fontBoundingBoxAscent / 100;\n      const hM = probeCtx.measureText(\"H\");\n      const capHeightRatio = hM.actualBoundingBoxAscent / 100;\n      const pseudoComputedW = parseFloat(flStyle.width);\n      if (Number.isFinite(pseudoComputedW) && pseudoComputedW > 0 && naturalWidthAt100 > 0) {\n        const paintedGlyphW = pseudoComputedW;\n        effectiveFs = 100 * paintedGlyphW / naturalWidthAt100;\n        const flFloatForSize = flStyle.float || flStyle.cssFloat || \"\";\n        const pseudoComputedH = parseFloat(flStyle.height);\n        const glyphInkH100 = (probeM.actualBoundingBoxAscent || 0) + (probeM.actualBoundingBoxDescent || 0);\n        const glyphInkW100 = (probeM.actualBoundingBoxLeft || 0) + (probeM.actualBoundingBoxRight || 0);\n        if ((flFloatForSize === \"left\" || flFloatForSize === \"right\") && Number.isFinite(pseudoComputedH) && pseudoComputedH > 0 && glyphInkH100 > 0) {\n          effectiveFs = 100 * pseudoComputedH / glyphInkH100;\n        } else if (!flIsFloatSize && glyphInkW100 > 0) {\n          effectiveFs = 100 * pseudoComputedW / glyphInkW100;\n        }\n        effectiveAscent = effectiveFs * ascentRatio;\n      }\n    }\n    const flFloat = flStyle.float || flStyle.cssFloat || \"\";\n    const padT = parseFloat(flStyle.paddingTop) || 0;\n    const padR = parseFloat(flStyle.paddingRight) || 0;\n    const padB = parseFloat(flStyle.paddingBottom) || 0;\n    const padL = parseFloat(flStyle.paddingLeft) || 0;\n    let pboxL, pboxT, pboxW, pboxH;\n    if (flFloat === \"left\" || flFloat === \"right\") {\n      const pBox = el.getBoundingClientRect();\n      const pPadT = parseFloat(cs.paddingTop) || 0;\n      const pPadL = parseFloat(cs.paddingLeft) || 0;\n      const pPadR = parseFloat(cs.paddingRight) || 0;\n      const pBorT = parseFloat(cs.borderTopWidth) || 0;\n      const pBorL = parseFloat(cs.borderLeftWidth) || 0;\n      const pBorR = parseFloat(cs.borderRightWidth) || 0;\n      const flMarT = parseFloat(flStyle.marginTop) || 0;\n      const flMarL = parseFloat(flStyle.marginLeft) || 0;\n      const flMarR = parseFloat(flStyle.marginRight) || 0;\n      const cw = parseFloat(flStyle.width);\n      const ch_ = parseFloat(flStyle.height);\n      pboxW = (Number.isFinite(cw) && cw > 0 ? cw : maxR - minL) + padL + padR;\n      pboxH = (Number.isFinite(ch_) && ch_ > 0 ? ch_ : maxB - minT) + padT + padB;\n      pboxT = pBox.y + pBorT + pPadT + flMarT - vp.y;\n      pboxL = flFloat === \"left\" ? pBox.x + pBorL + pPadL + flMarL - vp.x : pBox.x + pBox.width - pBorR - pPadR - flMarR - pboxW - vp.x;\n    } else {\n      pboxL = minL - vp.x - padL;\n      pboxT = minT - vp.y - padT;\n      pboxW = maxR - minL + padL + padR;\n      pboxH = maxB - minT + padT + padB;\n    }\n    let flGlyphX = minL - vp.x;\n    const flIsFloat = flFloat === \"left\" || flFloat === \"right\";\n    if (hasInitialLetter && effectiveFs != null && flIsFloat) {\n      const contentBottom = pboxT + pboxH - padB;\n      styledSegY = contentBottom - effectiveAscent;\n      const contentLeft = pboxL + padL;\n      const contentW = pboxW - padL - padR;\n      const glyphW = maxR - minL;\n      flGlyphX = contentLeft + (contentW - glyphW) / 2;\n    }\n    const bwT = parseFloat(flStyle.borderTopWidth) || 0;\n    const bwR_ = parseFloat(flStyle.borderRightWidth) || 0;\n    const bwB = parseFloat(flStyle.borderBottomWidth) || 0;\n    const bwL = parseFloat(flStyle.borderLeftWidth) || 0;\n    const uniformBw = bwT > 0 && bwT === bwR_ && bwT === bwB && bwT === bwL;\n    const bgRaw = flStyle.backgroundColor;\n    const hasBg = bgRaw && bgRaw !== \"\" && bgRaw !== \"rgba(0, 0, 0, 0)\" && bgRaw !== \"transparent\";\n    const bgImgRaw = flStyle.backgroundImage;\n    const hasBgImg = bgImgRaw && bgImgRaw !== \"\" && bgImgRaw !== \"none\";\n    const brad = parseFloat(flStyle.borderRadius) || 0;\n    const hasAnyBox = hasBg || hasBgImg || brad > 0 || bwT > 0 || bwR_ > 0 || bwB > 0 || bwL > 0;\n    const pseudoBox = hasAnyBox ? {\n      x: pboxL,\n      y: pboxT,\n      width: pboxW,\n      height: pboxH,\n      backgroundColor: hasBg ? normColor(bgRaw) : void 0,\n      backgroundImage: hasBgImg ? bgImgRaw : void 0,\n      borderRadius: brad > 0 ? brad : void 0,\n      borderWidth: uniformBw ? bwT : void 0,\n      borderColor: uniformBw ? normColor(flStyle.borderTopColor) : void 0,\n      borL: bwL,\n      borR: bwR_,\n      borT: bwT,\n      borB: bwB,\n      borderTopColor: !uniformBw && bwT > 0 ? normColor(flStyle.borderTopColor) : void 0,\n      borderRightColor: !uniformBw && bwR_ > 0 ? normColor(flStyle.borderRightColor) : void 0,\n      borderBottomColor: !uniformBw && bwB > 0 ? normColor(flStyle.borderBottomColor) : void 0,\n      borderLeftColor: !uniformBw && bwL > 0 ? normColor(flStyle.borderLeftColor) : void 0\n    } : void 0;\n    const flTextShadow = flStyle.textShadow !== \"\" && flStyle.textShadow !== \"none\" && flStyle.textShadow !== cs.textShadow ? flStyle.textShadow : void 0;\n    const styledSeg = {\n      text: styledText,\n      x: flGlyphX,\n      y: styledSegY,\n      width: maxR - minL,\n      height: maxB - minT,\n      xOffsets: xoff,\n      color: normColor(flStyle.color),\n      fontFamily: flStyle.fontFamily,\n      fontSize: effectiveFs,\n      fontWeight: flStyle.fontWeight !== cs.fontWeight ? flStyle.fontWeight : void 0,\n      fontStyle: flStyle.fontStyle !== cs.fontStyle ? flStyle.fontStyle : void 0,\n      fontVariant: flStyle.fontVariant !== cs.fontVariant ? flStyle.fontVariant : void 0,\n      fontAscent: effectiveAscent,\n      textShadow: flTextShadow,\n      pseudoBox\n    };\n    return { seg: styledSeg, minL, maxR, minT, maxB };\n  };\n  const captureTextSegments = (el, cs) => {\n    const wm = cs.writingMode;\n    if (wm === \"vertical-rl\" || wm === \"vertical-lr\" || wm === \"sideways-rl\" || wm === \"sideways-lr\") {\n      return finishLineClamp(el, cs, captureVerticalTextSegments(el, cs));\n    }\n    const textSegments = [];\n    let text = \"\";\n    let minLeft = Infinity;\n    let minTop = Infinity;\n    let maxRight = -Infinity;\n    let maxBottom = -Infinity;\n    const flStyle = window.getComputedStyle(el, \"::first-letter\");\n    const elFsRaw = parseFloat(cs.fontSize) || 0;\n    const flFsRaw = parseFloat(flStyle.fontSize) || 0;\n    const flInitialLetterRaw = (flStyle.initialLetter || flStyle.webkitInitialLetter || \"\").trim();\n    const hasInitialLetter = flInitialLetterRaw !== \"\" && flInitialLetterRaw !== \"normal\" && flInitialLetterRaw !== \"auto\";\n    const firstLetterStyled = flFsRaw > 0 && Math.abs(flFsRaw - elFsRaw) > 0.5 || flStyle.color !== \"\" && flStyle.color !== cs.color || flStyle.fontWeight !== \"\" && flStyle.fontWeight !== cs.fontWeight || flStyle.fontFamily !== \"\" && flStyle.fontFamily !== cs.fontFamily || flStyle.fontStyle !== \"\" && flStyle.fontStyle !== cs.fontStyle || flStyle.textShadow !== \"\" && flStyle.textShadow !== \"none\" && flStyle.textShadow !== cs.textShadow || hasInitialLetter;\n    const isFirstLetterPunct = (ch) => /\\p{P}/u.test(ch);\n    const isCombiningMark = (ch) => /\\p{M}/u.test(ch);\n    const selectFirstLetter = (chars) => {\n      let i = 0;\n      while (i < chars.length && /\\s/.test(chars[i].ch)) i++;\n      const start = i;\n      while (i < chars.length && isFirstLetterPunct(chars[i].ch)) i++;\n      if (i < chars.length && !/\\s/.test(chars[i].ch) && !isFirstLetterPunct(chars[i].ch)) {\n        i++;\n        while (i < chars.length && isCombiningMark(chars[i].ch)) i++;\n      }\n      while (i < chars.length && isFirstLetterPunct(chars[i].ch)) i++;\n      return { start, end: i };\n    };\n    let firstLetterChars = null;\n    let firstLetterStartIdx = -1;\n    let firstLetterEndIdx = -1;\n    let didEmitStyledFirstLetter = false;\n    const elTag = el.tagName != null ? el.tagName.toLowerCase() : \"\";\n    const _miText = (el.textContent || \"\").trim();\n    const mathItalicizeMi = elTag === \"mi\" && [..._miText].length === 1 && cs.textTransform === \"math-auto\" && /^[a-zA-ZΑ-ΩΆΈΉΊΌΎΏα-ωϐϑϕϖϗϰϱϵ∂∇]$/u.test(_miText);\n    for (const node of el.childNodes) {\n      if (node.nodeType !== Node.TEXT_NODE) continue;\n      const sourceRaw = node.textContent || \"\";\n      const tt = cs.textTransform;\n      const mapped = transformTextWithSourceSpans(sourceRaw, tt, cs.lang || el.lang || \"\");\n      const raw = mapped.map((part) => part.rendered).join(\"\");\n      if (!raw.trim()) continue;\n      const rawForText = mathItalicizeMi ? mathItalicChar(raw.trim()) : raw.trim();\n      text += rawForText + \" \";\n      const lines = [];\n      let cur = null;\n      for (let sourcePartIndex = 0; sourcePartIndex < mapped.length; sourcePartIndex++) {\n        const part = mapped[sourcePartIndex];\n        const r = document.createRange();\n        r.setStart(node, part.sourceStart);\n        r.setEnd(node, part.sourceEnd);\n        const cr = r.getBoundingClientRect();\n        const isWs = /^\\s+$/.test(part.sourceText);\n        if (cr.width === 0 && (cr.height === 0 || isWs)) continue;\n        let ch = part.rendered;\n        if (mathItalicizeMi) ch = mathItalicChar(ch);\n        let topForGroup = cr.top;\n        let leftForGroup = cr.left;\n        let rightForGroup = cr.right;\n        let bottomForGroup = cr.bottom;\n        if (cur != null && cur.chars.length > 0) {\n          const refH = cur.bottom - cur.top || 16;\n          if (cr.height > refH * 1.5 && cr.bottom > cur.bottom + refH * 0.5) {\n            const peekPart = mapped[sourcePartIndex + 1];\n            if (peekPart != null) {\n              const pr = document.createRange();\n              pr.setStart(node, peekPart.sourceStart);\n              pr.setEnd(node, peekPart.sourceEnd);\n              const pcr = pr.getBoundingClientRect();\n              if (pcr.height > 0 && pcr.height < refH * 1.5) {\n                topForGroup = pcr.top;\n                bottomForGroup = pcr.bottom;\n                leftForGroup = cr.left;\n                rightForGroup = pcr.left;\n              }\n            } else {\n              topForGroup = cr.bottom - refH;\n            }\n          }\n        }\n        const charRec = {\n          ch,\n          sourceText: part.sourceText,\n          left: leftForGroup,\n          top: topForGroup,\n          right: rightForGroup,\n          bottom: bottomForGroup,\n          transformedLengthChanged: ch.length !== part.sourceText.length\n        };\n        if (cur == null || Math.abs(topForGroup - cur.top) > 1) {\n          if (cur != null) lines.push(cur);\n          cur = { chars: [charRec], top: topForGroup, bottom: bottomForGroup, left: leftForGroup, right: rightForGroup };\n        } else {\n          cur.chars.push(charRec);\n          cur.left = Math.min(cur.left, leftForGroup);\n          cur.right = Math.max(cur.right, rightForGroup);\n          cur.bottom = Math.max(cur.bottom, bottomForGroup);\n        }\n      }\n      if (cur != null) lines.push(cur);\n      const fragmentedLines = [];\n      for (const ln of lines) {\n        if (ln.chars.length <= 1) {\n          fragmentedLines.push(ln);\n          continue;\n        }\n        let frag = { chars: [ln.chars[0]], top: ln.top, bottom: ln.bottom };\n        const fragments = [frag];\n        const BIDI_FRAGMENT_GAP_PX = 80;\n        for (let ci = 1; ci < ln.chars.length; ci++) {\n          const prev = ln.chars[ci - 1];\n          const cc = ln.chars[ci];\n          const leftJump = cc.left < prev.left - BIDI_FRAGMENT_GAP_PX;\n          const rightJump = cc.left > prev.right + BIDI_FRAGMENT_GAP_PX;\n          if (leftJump || rightJump) {\n            frag = { chars: [cc], top: ln.top, bottom: ln.bottom };\n            fragments.push(frag);\n          } else {\n            frag.chars.push(cc);\n          }\n        }\n        for (const f of fragments) {\n          let l = Infinity;\n          let r = -Infinity;\n          for (const c of f.chars) {\n            if (c.left < l) l = c.left;\n            if (c.right > r) r = c.right;\n          }\n          f.left = l;\n          f.right = r;\n          fragmentedLines.push(f);\n        }\n      }\n      lines.length = 0;\n      for (const fl of fragmentedLines) lines.push(fl);\n      for (const ln of lines) {\n        ln.text = ln.chars.map((c) => c.ch).join(\"\");\n        ln.sourceText = ln.chars.map((c) => c.sourceText).join(\"\");\n        if (!ln.chars.some((c) => c.transformedLengthChanged)) {\n          const xo = [];\n          for (const c of ln.chars) {\n            for (let k = 0; k < c.ch.length; k++) xo.push(c.left);\n          }\n          ln.xOffsets = xo;\n        }\n      }\n      for (const line of lines) {\n        const visualText = line.text.replace(/[\\t\\n\\r]/g, \" \");\n        if (visualText.replace(/\\s/g, \"\") === \"\") continue;\n        const isFirstStyledLine = firstLetterStyled && firstLetterChars == null;\n        if (isFirstStyledLine) {\n          const sel = selectFirstLetter(line.chars);\n          firstLetterStartIdx = sel.start;\n          firstLetterEndIdx = sel.end;\n          firstLetterChars = [];\n        }\n        const rasterGlyphs = [];\n        const rasterSpans = rasterCandidates(visualText, cs.fontVariantEmoji);\n        const rasterSpanAt = new Map(rasterSpans.map((span) => [span.start, span]));\n        const dottedCircleMarks = [];\n        let probeConsulted = false;\n        let clusterHasBase = false;\n        let utf16Idx = 0;\n        for (let ci = 0; ci < line.chars.length; ci++) {\n          const cRec = line.chars[ci];\n          const cp = cRec.ch.codePointAt(0);\n          const isMark = /\\p{M}/u.test(cRec.ch);\n          const isWs = /^\\s+$/.test(cRec.ch);\n          const isClusterLetter = !isMark && /\\p{Lo}|\\p{Lm}/u.test(cRec.ch);\n          let flaggedHere = false;\n          if (markGetsDottedCircle != null && (isMark || isClusterLetter) && !clusterHasBase && cp != null) {\n            probeConsulted = true;\n            if (markGetsDottedCircle(cp, cRec.ch, cs.fontFamily)) {\n              dottedCircleMarks.push(utf16Idx);\n              flaggedHere = true;\n            }\n          }\n          if (flaggedHere) {\n            clusterHasBase = true;\n          } else if (isMark) {\n          } else if (isWs) {\n            clusterHasBase = false;\n          } else if (isShapingTransparentControl(cRec.ch)) {\n          } else {\n            clusterHasBase = true;\n          }\n          const isFirstLetterChar = isFirstStyledLine && ci >= firstLetterStartIdx && ci < firstLetterEndIdx;\n          if (isFirstLetterChar) {\n            firstLetterChars.push(cRec);\n            rasterGlyphs.push({\n              charIndex: utf16Idx,\n              rect: { x: 0, y: 0, width: 0, height: 0 },\n              suppressGlyph: true\n            });\n          } else if (cp != null && rasterSpanAt.has(utf16Idx)) {\n            const span = rasterSpanAt.get(utf16Idx);\n            let spanRight = cRec.right;\n            let spanBottom = cRec.bottom;\n            let spanCi = ci + 1;\n            let spanUtf16 = utf16Idx + cRec.ch.length;\n            while (spanCi < line.chars.length && spanUtf16 < span.end) {\n              const member = line.chars[spanCi++];\n              spanRight = Math.max(spanRight, member.right);\n              spanBottom = Math.max(spanBottom, member.bottom);\n              spanUtf16 += member.ch.length;\n            }\n            rasterGlyphs.push({\n              charIndex: utf16Idx,\n              charLength: span.end - span.start,\n              rect: {\n                x: cRec.left - vp.x,\n                y: cRec.top - vp.y,\n                width: spanRight - cRec.left,\n                height: spanBottom - cRec.top\n              },\n              // DM-905: the embedded-font default path emits the codepoint\n              // as a PUA `<text>` against the system fallback subset font\n              // where it lands as the font's .notdef tofu — peeking out\n              // past the rasterGlyph overlay's edges. Suppressing the glyph\n              // replaces the codepoint with ZWSP before the emit so only\n              // the raster image paints.\n              suppressGlyph: true\n            });\n          }\n          utf16Idx += cRec.ch.length;\n        }\n        textSegments.push({\n          text: visualText,\n          sourceText: line.sourceText,\n          x: line.left - vp.x,\n          y: line.top - vp.y,\n          width: line.right - line.left,\n          height: line.bottom - line.top,\n          // A length-changing transform (e.g. ß → SS) has one DOM Range for\n          // multiple rendered codepoints, so CSSOM exposes no internal glyph\n          // anchors. Let HarfBuzz shape that rendered run normally instead of\n          // inventing duplicate offsets from the source span.\n          xOffsets: line.xOffsets?.map((v) => v - vp.x),\n          // AX exposes the exact retained fragment after this synchronous\n          // walk. Keep Range advances so the refinement can remove laid-out\n          // but unpainted clamp-tail glyphs without estimating their widths.\n          xAdvances: line.xOffsets == null ? void 0 : line.chars.flatMap((c) => Array.from({ length: c.ch.length }, () => c.right - c.left)),\n          rasterGlyphs: rasterGlyphs.length > 0 ? rasterGlyphs : void 0,\n          dottedCircleMarks: dottedCircleMarks.length > 0 ? dottedCircleMarks : probeConsulted ? [] : void 0\n        });\n        minLeft = Math.min(minLeft, line.left);\n        minTop = Math.min(minTop, line.top);\n        maxRight = Math.max(maxRight, line.right);\n        maxBottom = Math.max(maxBottom, line.bottom);\n      }\n    }\n    if (firstLetterChars != null && firstLetterChars.length > 0) {\n      const fl = buildFirstLetterSegment(firstLetterChars, flStyle, hasInitialLetter, el, cs);\n      textSegments.unshift(fl.seg);\n      didEmitStyledFirstLetter = true;\n      minLeft = Math.min(minLeft, fl.minL);\n      minTop = Math.min(minTop, fl.minT);\n      maxRight = Math.max(maxRight, fl.maxR);\n      maxBottom = Math.max(maxBottom, fl.maxB);\n    }\n    const flLineTargetIdx = didEmitStyledFirstLetter ? 1 : 0;\n    if (textSegments.length > flLineTargetIdx) {\n      const flLineStyle = window.getComputedStyle(el, \"::first-line\");\n      const firstSeg = textSegments[flLineTargetIdx];\n      if (flLineStyle.textTransform !== cs.textTransform && firstSeg.sourceText != null) {\n        const firstLineMap = transformTextWithSourceSpans(\n          firstSeg.sourceText,\n          flLineStyle.textTransform,\n          flLineStyle.lang || cs.lang || el.lang || \"\"\n        );\n        firstSeg.text = firstLineMap.map((part) => part.rendered).join(\"\").replace(/[\\t\\n\\r]/g, \" \");\n        if (firstLineMap.some((part) => part.rendered.length !== part.sourceText.length)) firstSeg.xOffsets = void 0;\n      }\n      if (flLineStyle.fontVariant !== \"\" && flLineStyle.fontVariant !== cs.fontVariant) {\n        firstSeg.fontVariant = flLineStyle.fontVariant;\n      }\n      if (flLineStyle.color !== \"\" && flLineStyle.color !== cs.color) {\n        firstSeg.color = flLineStyle.color;\n      }\n      if (flLineStyle.fontWeight !== \"\" && flLineStyle.fontWeight !== cs.fontWeight) {\n        firstSeg.fontWeight = flLineStyle.fontWeight;\n      }\n      if (flLineStyle.fontStyle !== \"\" && flLineStyle.fontStyle !== cs.fontStyle) {\n        firstSeg.fontStyle = flLineStyle.fontStyle;\n      }\n      const flFs = parseFloat(flLineStyle.fontSize);\n      const elFs2 = parseFloat(cs.fontSize);\n      if (flFs > 0 && Math.abs(flFs - elFs2) > 0.1) {\n        firstSeg.fontSize = flFs;\n      }\n    }\n    text = text.trim();\n    if (minLeft < Infinity) {\n      const metrics = measureFontMetrics(cs);\n      return finishLineClamp(el, cs, {\n        applied: true,\n        text,\n        textSegments,\n        textLeft: minLeft - vp.x,\n        textTop: minTop - vp.y,\n        textWidth: maxRight - minLeft,\n        textHeight: maxBottom - minTop,\n        fontAscent: metrics.ascent,\n        fontDescent: metrics.descent\n      });\n    }\n    return finishLineClamp(el, cs, { applied: true, text, textSegments });\n  };\n  return { captureTextSegments };\n};\nvar createTextSegmentsHandler = (dependencies) => buildTextSegmentsHandler(dependencies);\n\n// src/capture/script/walker/pseudo-inject.ts\nvar createPseudoInjectHandler = () => {\n  const injectPseudoSegments = (el, pseudoSegments, textSegments, state) => {\n    const pseudoImages = [];\n    let { text, textLeft, textTop, textWidth, textHeight, fontAscent } = state;\n    for (const p of pseudoSegments) {\n      if (p.imageUrl) {\n        const mL = p.boxMarginLeft || 0;\n        const mR = p.boxMarginRight || 0;\n        const bL = p.boxBorderLeft || 0;\n        const bR = p.boxBorderRight || 0;\n        const pL = p.boxPaddingLeft || 0;\n        const pR = p.boxPaddingRight || 0;\n        if (p.isBefore && textSegments.length > 0) {\n          const firstSeg = textSegments[0];\n          p.seg.x = firstSeg.x - p.seg.width - pR - bR - mR;\n          p.seg.y = firstSeg.y + (firstSeg.height - p.seg.height) / 2;\n        } else if (!p.isBefore && textSegments.length > 0) {\n          const lastSeg = textSegments[textSegments.length - 1];\n          p.seg.x = lastSeg.x + lastSeg.width + mL + bL + pL;\n          p.seg.y = lastSeg.y + (lastSeg.height - p.seg.height) / 2;\n        }\n        pseudoImages.push({\n          url: p.imageUrl,\n          x: p.seg.x,\n          y: p.seg.y,\n          width: p.renderWidth,\n          height: p.renderHeight,\n          filter: p.filter,\n          opacity: p.opacity,\n          transform: p.transform,\n          transformOrigin: p.transformOrigin\n        });\n        continue;\n      }\n      if (p.isPositioned) {\n        if (p.isBefore) textSegments.unshift(p.seg);\n        else textSegments.push(p.seg);\n      } else if (p.isBefore && textSegments.length > 0) {\n        const firstSeg = textSegments[0];\n        const bs = p.boxStyles || {};\n        const mRb = parseFloat(window.getComputedStyle(el, \"::before\").marginRight) || 0;\n        const flushX = firstSeg.x - p.seg.width - (bs.padR || 0) - (bs.borR || 0) - mRb;\n        p.seg.x = Math.min(flushX, p.seg.x);\n        p.seg.y = firstSeg.y;\n        p.seg.height = firstSeg.height;\n        textSegments.unshift(p.seg);\n      } else if (!p.isBefore && textSegments.length > 0) {\n        const lastSeg = textSegments[textSegments.length - 1];\n        const bs = p.boxStyles || {};\n        const mLa = parseFloat(window.getComputedStyle(el, \"::after\").marginLeft) || 0;\n        const hcs = window.getComputedStyle(el);\n        const hostIsFlex = hcs.display === \"flex\" || hcs.display === \"inline-flex\";\n        const hostJc = hcs.justifyContent;\n        const flexSpread = hostIsFlex && hostJc != null && hostJc !== \"\" && hostJc !== \"flex-start\" && hostJc !== \"start\" && hostJc !== \"normal\";\n        if (flexSpread) {\n          if (hcs.alignItems === \"center\") {\n            const elRect2 = el.getBoundingClientRect();\n            const padT = parseFloat(hcs.paddingTop) || 0;\n            const padB = parseFloat(hcs.paddingBottom) || 0;\n            const borT = parseFloat(hcs.borderTopWidth) || 0;\n            const borB = parseFloat(hcs.borderBottomWidth) || 0;\n            const contentCenterY = elRect2.top + borT + padT + (elRect2.height - borT - borB - padT - padB) / 2;\n            const pseudoFs = p.seg.fontSize || lastSeg.height;\n            let lineH = parseFloat(window.getComputedStyle(el, \"::after\").lineHeight);\n            if (isNaN(lineH) || lineH <= 0) lineH = pseudoFs * 1.2;\n            p.seg.y = contentCenterY - lineH / 2;\n            p.seg.height = pseudoFs;\n          } else {\n            p.seg.y = lastSeg.y;\n            p.seg.height = lastSeg.height;\n          }\n        } else {\n          p.seg.x = lastSeg.x + lastSeg.width + mLa + (bs.borL || 0) + (bs.padL || 0);\n          p.seg.y = lastSeg.y;\n          p.seg.height = lastSeg.height;\n        }\n        const elRect = el.getBoundingClientRect();\n        const ecs = window.getComputedStyle(el);\n        const pdL = parseFloat(ecs.paddingLeft) || 0;\n        const bdL = parseFloat(ecs.borderLeftWidth) || 0;\n        const lastBottom = lastSeg.y + lastSeg.height;\n        const elBottom = elRect.bottom - (parseFloat(ecs.paddingBottom) || 0) - (parseFloat(ecs.borderBottomWidth) || 0);\n        const wrapThreshold = lastSeg.height * 0.8;\n        if (elBottom - lastBottom >= wrapThreshold) {\n          p.seg.x = elRect.x + bdL + pdL;\n          p.seg.y = lastBottom;\n          const trimmedText = p.seg.text.replace(/^\\s+/, \"\");\n          if (trimmedText !== p.seg.text && trimmedText !== \"\") {\n            const aps = window.getComputedStyle(el, \"::after\");\n            const sp = document.createElement(\"span\");\n            sp.style.cssText = \"position:absolute;visibility:hidden;white-space:pre;left:-99999px;top:-99999px;margin:0;padding:0;border:0\";\n            sp.style.fontFamily = aps.fontFamily;\n            sp.style.fontSize = aps.fontSize;\n            sp.style.fontWeight = aps.fontWeight;\n            sp.style.fontStyle = aps.fontStyle;\n            sp.style.letterSpacing = aps.letterSpacing;\n            sp.textContent = trimmedText;\n            document.body.appendChild(sp);\n            const wTrim = sp.getBoundingClientRect().width;\n            sp.remove();\n            p.seg.text = trimmedText;\n            if (wTrim > 0) p.seg.width = wTrim;\n          }\n        }\n        textSegments.push(p.seg);\n      } else if (!p.isBefore) {\n        const ps = window.getComputedStyle(el, \"::after\");\n        const sentinel = document.createElement(\"span\");\n        sentinel.style.cssText = \"visibility:hidden;pointer-events:none;white-space:pre\";\n        sentinel.style.fontFamily = ps.fontFamily;\n        sentinel.style.fontSize = ps.fontSize;\n        sentinel.style.fontWeight = ps.fontWeight;\n        sentinel.style.fontStyle = ps.fontStyle;\n        sentinel.style.letterSpacing = ps.letterSpacing;\n        sentinel.style.marginLeft = ps.marginLeft;\n        sentinel.textContent = p.seg.text;\n        el.appendChild(sentinel);\n        const sr = sentinel.getBoundingClientRect();\n        sentinel.remove();\n        if (sr.width > 0 || sr.height > 0) {\n          p.seg.x = sr.left;\n          p.seg.y = sr.top + (sr.height - p.seg.height) / 2;\n        }\n        textSegments.push(p.seg);\n      } else {\n        textSegments.push(p.seg);\n      }\n      if (textSegments.length === 1 && textSegments[0] === p.seg) {\n        textLeft = p.seg.x;\n        textTop = p.seg.y;\n        textWidth = p.seg.width;\n        textHeight = p.seg.height;\n        if (p.seg.fontAscent != null) fontAscent = p.seg.fontAscent;\n      }\n      if (p.seg.rasterRect != null) {\n        const isHostSized = p.seg.rasterRect.width > p.seg.width + 1;\n        if (!isHostSized) {\n          p.seg.rasterRect.x = p.seg.x;\n          p.seg.rasterRect.y = p.seg.y;\n          p.seg.rasterRect.height = p.seg.height;\n          if (p.seg.rasterEmojiSide != null && p.seg.rasterEmojiSide > p.seg.height) {\n            const vpad = (p.seg.rasterEmojiSide - p.seg.height) / 2;\n            p.seg.rasterRect.y -= vpad;\n            p.seg.rasterRect.height += 2 * vpad;\n          }\n        }\n      }\n      if (p.boxStyles != null) {\n        const bs = p.boxStyles;\n        const lineCenter = p.seg.y + bs.fontSize / 2;\n        const boxTop = lineCenter - bs.lineH / 2 - bs.padT - bs.borT;\n        const bx = p.seg.x - bs.padL - bs.borL;\n        const bw = bs.measuredWidth || p.seg.width + bs.padL + bs.padR + bs.borL + bs.borR;\n        const bh = bs.measuredHeight || bs.lineH + bs.padT + bs.padB + bs.borT + bs.borB;\n        if (bw > 0 && bh > 0) {\n          p.seg.pseudoBox = {\n            x: bx,\n            y: boxTop,\n            width: bw,\n            height: bh,\n            backgroundColor: bs.backgroundColor,\n            // DM-782: gradient/url() bg-image plumbing — renderer threads\n            // each comma-separated layer through `buildBackgroundLayerDef`\n            // and paints rect(s) behind the glyphs (mirrors the empty-\n            // content pseudoBox path in `element-tree-to-svg.ts`).\n            backgroundImage: bs.backgroundImage,\n            borderRadius: bs.borderRadius,\n            borderWidth: bs.borderWidth,\n            borderColor: bs.borderColor,\n            // Per-side widths + colors for non-uniform borders (e.g. a\n            // bare `border-bottom` on a pseudo). Width fields are always\n            // emitted so the renderer doesn't have to fall back to zero\n            // when a `borderWidth` (uniform) shorthand is absent.\n            borL: bs.borL,\n            borR: bs.borR,\n            borT: bs.borT,\n            borB: bs.borB,\n            borderTopColor: bs.borderTopColor,\n            borderRightColor: bs.borderRightColor,\n            borderBottomColor: bs.borderBottomColor,\n            borderLeftColor: bs.borderLeftColor,\n            // DM-783: pseudo's `transform` + `transformOrigin`. Renderer\n            // wraps the box + glyphs in a pre-baked\n            // translate-(transform)-translate matrix so the rotation/scale\n            // pivots around the box-relative origin instead of (0,0).\n            transform: bs.transform,\n            transformOrigin: bs.transformOrigin,\n            filter: bs.filter,\n            opacity: bs.opacity\n          };\n        }\n      }\n      text = p.isBefore ? p.seg.text + \" \" + text : text + \" \" + p.seg.text;\n    }\n    return { pseudoImages, text, textLeft, textTop, textWidth, textHeight, fontAscent };\n  };\n  return { injectPseudoSegments };\n};\n\n// src/render/resize-handle.ts\nfunction blinkOverflowValueIsScrollable(value) {\n  const normalized = value?.trim().toLowerCase();\n  return normalized != null && normalized !== \"visible\" && normalized !== \"clip\";\n}\nfunction blinkIsScrollContainer(input) {\n  return input.isLayoutReplaced !== true && (blinkOverflowValueIsScrollable(input.overflowX) || blinkOverflowValueIsScrollable(input.overflowY));\n}\nfunction blinkCanResize(input) {\n  const resize = input.resize?.trim().toLowerCase();\n  return resize != null && resize !== \"none\" && (input.isLayoutIFrame === true || blinkIsScrollContainer(input));\n}\nfunction blinkResizerIsOnLogicalLeft(direction, writingMode) {\n  return direction?.trim().toLowerCase() === \"rtl\" && (writingMode == null || writingMode.trim().toLowerCase() === \"horizontal-tb\");\n}\nfunction blinkResizerThickness(input) {\n  const vertical = input.verticalScrollbarThickness;\n  const horizontal = input.horizontalScrollbarThickness;\n  if (vertical == null && horizontal == null) {\n    return {\n      width: input.themeThickness,\n      height: input.themeThickness,\n      hasScrollbar: false\n    };\n  }\n  if (vertical != null && horizontal == null) {\n    return { width: vertical, height: vertical, hasScrollbar: true };\n  }\n  if (vertical == null && horizontal != null) {\n    return { width: horizontal, height: horizontal, hasScrollbar: true };\n  }\n  return { width: vertical, height: horizontal, hasScrollbar: true };\n}\nfunction blinkPixelSnappedSize(size, location2) {\n  let snapped = Math.round(location2 + size) - Math.round(location2);\n  if (snapped === 0 && Math.abs(size) > 4 / 64) snapped = size > 0 ? 1 : -1;\n  return snapped;\n}\nfunction blinkResizerCorner(input) {\n  const originX = Math.round(input.x);\n  const originY = Math.round(input.y);\n  const snappedWidth = blinkPixelSnappedSize(input.borderBoxWidth, input.x);\n  const snappedHeight = blinkPixelSnappedSize(input.borderBoxHeight, input.y);\n  return {\n    x: originX + (input.logicalLeft ? input.borderLeftWidth : snappedWidth - input.cornerWidth - input.borderRightWidth),\n    y: originY + snappedHeight - input.cornerHeight - input.borderBottomWidth,\n    width: input.cornerWidth,\n    height: input.cornerHeight\n  };\n}\nfunction blinkUsesCustomResizer(canResize, isScrollContainer, pseudoRuleMatched) {\n  return canResize && isScrollContainer && pseudoRuleMatched;\n}\n\n// src/capture/script/walker/resize-handle.ts\nvar _layoutReplacedTags = /* @__PURE__ */ new Set([\n  \"img\",\n  \"video\",\n  \"canvas\",\n  \"object\",\n  \"embed\",\n  \"audio\",\n  \"iframe\",\n  \"input\",\n  \"select\"\n]);\nvar _hasAxisScrollbar = (overflow, scrollExtent, clientExtent) => {\n  if (overflow === \"scroll\") return true;\n  return overflow === \"auto\" && scrollExtent > clientExtent;\n};\nvar createResizeHandleHandler = ({\n  resolvePseudo,\n  normColor,\n  effectiveZoomFor,\n  themeThickness,\n  scaleFromDIP,\n  vp\n}) => {\n  const captureResizeHandle = (el, cs, tag, rect) => {\n    const activation = {\n      resize: cs.resize,\n      overflowX: cs.overflowX,\n      overflowY: cs.overflowY,\n      isLayoutReplaced: _layoutReplacedTags.has(tag),\n      isLayoutIFrame: tag === \"iframe\"\n    };\n    if (!blinkCanResize(activation)) return void 0;\n    const isScrollContainer = blinkIsScrollContainer(activation);\n    const zoom = effectiveZoomFor(el);\n    const borderLeft = Math.round((parseFloat(cs.borderLeftWidth) || 0) * zoom);\n    const borderRight = Math.round((parseFloat(cs.borderRightWidth) || 0) * zoom);\n    const borderBottom = Math.round((parseFloat(cs.borderBottomWidth) || 0) * zoom);\n    const hasVertical = isScrollContainer && _hasAxisScrollbar(cs.overflowY, el.scrollHeight, el.clientHeight);\n    const hasHorizontal = isScrollContainer && _hasAxisScrollbar(cs.overflowX, el.scrollWidth, el.clientWidth);\n    const verticalGap = Math.max(0, rect.width - el.clientWidth * zoom - borderLeft - borderRight);\n    const horizontalGap = Math.max(\n      0,\n      rect.height - el.clientHeight * zoom - Math.round((parseFloat(cs.borderTopWidth) || 0) * zoom) - borderBottom\n    );\n    const thickness = blinkResizerThickness({\n      themeThickness,\n      verticalScrollbarThickness: hasVertical ? verticalGap > 0.5 ? Math.round(verticalGap) : themeThickness : null,\n      horizontalScrollbarThickness: hasHorizontal ? horizontalGap > 0.5 ? Math.round(horizontalGap) : themeThickness : null\n    });\n    const logicalLeft = blinkResizerIsOnLogicalLeft(cs.direction, cs.writingMode);\n    const corner = blinkResizerCorner({\n      x: rect.left,\n      y: rect.top,\n      borderBoxWidth: rect.width,\n      borderBoxHeight: rect.height,\n      borderLeftWidth: borderLeft,\n      borderRightWidth: borderRight,\n      borderBottomWidth: borderBottom,\n      cornerWidth: thickness.width,\n      cornerHeight: thickness.height,\n      logicalLeft\n    });\n    const pseudo = resolvePseudo(el, \"resizer\");\n    const custom = blinkUsesCustomResizer(true, isScrollContainer, pseudo.matched) ? {\n      // Authored dimensions are evidence only. Blink overrides the custom\n      // layout object's size with CornerRect before ObjectPainter runs.\n      authoredWidth: pseudo.width || void 0,\n      authoredHeight: pseudo.height || void 0,\n      backgroundColor: pseudo.backgroundColor ? normColor(pseudo.backgroundColor) : void 0,\n      backgroundImage: pseudo.backgroundImage || void 0,\n      borderRadius: pseudo.borderRadius || void 0,\n      border: pseudo.border || void 0,\n      boxShadow: pseudo.boxShadow || void 0,\n      effectiveZoom: zoom\n    } : void 0;\n    return {\n      x: corner.x - vp.x,\n      y: corner.y - vp.y,\n      width: corner.width,\n      height: corner.height,\n      logicalLeft,\n      scaleFromDIP,\n      hasScrollbar: thickness.hasScrollbar,\n      custom\n    };\n  };\n  return { captureResizeHandle };\n};\n\n// src/capture/script/line-clamp.ts\nvar parseBlinkLineClampCount = (value) => {\n  if (typeof value !== \"string\" || !/^\\s*[1-9]\\d*\\s*$/.test(value)) return null;\n  const count = Number.parseInt(value, 10);\n  return Number.isSafeInteger(count) && count > 0 ? count : null;\n};\nvar blinkLineClampActivation = ({\n  webkitLineClamp,\n  webkitBoxOrient,\n  computedDisplay,\n  behaviorallyClamps\n}) => {\n  const clampCount = parseBlinkLineClampCount(webkitLineClamp);\n  if (clampCount == null) return null;\n  if (webkitBoxOrient !== \"vertical\") return null;\n  if (computedDisplay !== \"flow-root\") return null;\n  if (behaviorallyClamps !== true) return null;\n  return { clampCount };\n};\nvar blinkLineClampEllipsisText = (primaryFontHasHorizontalEllipsis) => primaryFontHasHorizontalEllipsis ? \"\\u2026\" : \"...\";\nvar blinkShouldEmitLineClampEllipsis = ({\n  active,\n  clampCount,\n  totalLineCount,\n  emptyLine = false,\n  blockInInline = false\n}) => active === true && Number.isInteger(clampCount) && clampCount > 0 && totalLineCount > clampCount && !emptyLine && !blockInInline;\nvar blinkLineClampInlineStart = ({\n  direction,\n  adjacentInlineStart,\n  adjacentInlineEnd,\n  ellipsisAdvance\n}) => direction === \"rtl\" ? adjacentInlineStart - ellipsisAdvance : adjacentInlineEnd;\nvar blinkLineClampLineIsVisible = (logicalLineIndex, clampCount) => Number.isInteger(logicalLineIndex) && Number.isInteger(clampCount) && logicalLineIndex >= 0 && logicalLineIndex < clampCount;\nvar VERTICAL_WRITING_RE = /^(?:vertical|sideways)-/;\nvar collectTextCharacters = (root, vertical) => {\n  const chars = [];\n  const walker = root.ownerDocument.createTreeWalker(root, NodeFilter.SHOW_TEXT);\n  for (let node = walker.nextNode(); node != null; node = walker.nextNode()) {\n    const owner = node.parentElement;\n    if (owner == null) continue;\n    const ownerStyle = getComputedStyle(owner);\n    if (ownerStyle.display === \"none\" || ownerStyle.visibility === \"hidden\") continue;\n    const source = node.textContent || \"\";\n    for (let offset = 0; offset < source.length; ) {\n      const cp = source.codePointAt(offset);\n      const ch = String.fromCodePoint(cp);\n      const range = root.ownerDocument.createRange();\n      range.setStart(node, offset);\n      range.setEnd(node, offset + ch.length);\n      const rect = range.getBoundingClientRect();\n      const inlineAdvance = vertical ? rect.height : rect.width;\n      if (rect.width > 0 && rect.height > 0 && !(inlineAdvance === 0 && /^\\s+$/u.test(ch))) {\n        chars.push({\n          node,\n          owner,\n          ch,\n          left: rect.left,\n          right: rect.right,\n          top: rect.top,\n          bottom: rect.bottom\n        });\n      }\n      offset += ch.length;\n    }\n  }\n  return chars;\n};\nvar groupLogicalLines = (chars, writingMode) => {\n  const vertical = VERTICAL_WRITING_RE.test(writingMode);\n  const groups = [];\n  for (const char of chars) {\n    const offset = vertical ? char.left : char.top;\n    let line = groups.find((candidate) => Math.abs(candidate.blockOffset - offset) <= 1);\n    if (line == null) {\n      line = { blockOffset: offset, chars: [] };\n      groups.push(line);\n    }\n    line.chars.push(char);\n  }\n  groups.sort((a, b) => a.blockOffset - b.blockOffset);\n  if (writingMode === \"vertical-rl\" || writingMode === \"sideways-rl\") groups.reverse();\n  return groups;\n};\nvar behaviorallyClampsInClone = (el, cs, writingMode) => {\n  const parent = el.parentNode;\n  if (parent == null) return false;\n  const clone = el.cloneNode(true);\n  clone.setAttribute(\"aria-hidden\", \"true\");\n  clone.inert = true;\n  clone.style.setProperty(\"position\", \"fixed\", \"important\");\n  clone.style.setProperty(\"left\", \"-100000px\", \"important\");\n  clone.style.setProperty(\"top\", \"0\", \"important\");\n  clone.style.setProperty(\"visibility\", \"hidden\", \"important\");\n  clone.style.setProperty(\"pointer-events\", \"none\", \"important\");\n  clone.style.setProperty(\"content-visibility\", \"visible\", \"important\");\n  clone.style.setProperty(\"contain\", \"none\", \"important\");\n  if (VERTICAL_WRITING_RE.test(writingMode)) {\n    clone.style.setProperty(\"height\", cs.height, \"important\");\n    clone.style.setProperty(\"width\", \"auto\", \"important\");\n    clone.style.setProperty(\"min-width\", \"0\", \"important\");\n    clone.style.setProperty(\"max-width\", \"none\", \"important\");\n  } else {\n    clone.style.setProperty(\"width\", cs.width, \"important\");\n    clone.style.setProperty(\"height\", \"auto\", \"important\");\n    clone.style.setProperty(\"min-height\", \"0\", \"important\");\n    clone.style.setProperty(\"max-height\", \"none\", \"important\");\n  }\n  clone.style.setProperty(\"overflow\", \"visible\", \"important\");\n  parent.insertBefore(clone, el.nextSibling);\n  try {\n    return VERTICAL_WRITING_RE.test(writingMode) ? clone.scrollWidth > clone.clientWidth + 0.5 : clone.scrollHeight > clone.clientHeight + 0.5;\n  } finally {\n    clone.remove();\n  }\n};\nvar firstFamily = (familyList) => {\n  const match = /^\\s*(?:\"([^\"]+)\"|'([^']+)'|([^,]+))/.exec(familyList || \"\");\n  return (match?.[1] || match?.[2] || match?.[3] || familyList || \"sans-serif\").trim();\n};\nvar primaryFontHasEllipsis = (doc, cs) => {\n  const primary = firstFamily(cs.fontFamily).toLowerCase();\n  let sawMatchingFace = false;\n  for (const face of doc.fonts) {\n    if ((face.family || \"\").replace(/^['\"]|['\"]$/g, \"\").toLowerCase() !== primary) continue;\n    sawMatchingFace = true;\n    const range = face.unicodeRange || \"U+0-10FFFF\";\n    const covers = range.split(\",\").some((part) => {\n      const match = /U\\+([0-9a-f?]+)(?:-([0-9a-f]+))?/i.exec(part.trim());\n      if (match == null) return false;\n      if (match[1].includes(\"?\")) {\n        const lo2 = Number.parseInt(match[1].replace(/\\?/g, \"0\"), 16);\n        const hi2 = Number.parseInt(match[1].replace(/\\?/g, \"f\"), 16);\n        return 8230 >= lo2 && 8230 <= hi2;\n      }\n      const lo = Number.parseInt(match[1], 16);\n      const hi = match[2] == null ? lo : Number.parseInt(match[2], 16);\n      return 8230 >= lo && 8230 <= hi;\n    });\n    if (covers) return true;\n  }\n  return !sawMatchingFace;\n};\nvar measureMarker = (doc, cs, text, writingMode, scale) => {\n  const probe = doc.createElement(\"span\");\n  probe.setAttribute(\"aria-hidden\", \"true\");\n  probe.textContent = text;\n  probe.style.cssText = \"position:fixed;left:-100000px;top:0;display:inline-block;visibility:hidden;white-space:pre;margin:0;padding:0;border:0;\";\n  probe.style.fontFamily = cs.fontFamily;\n  probe.style.fontSize = cs.fontSize;\n  probe.style.fontWeight = cs.fontWeight;\n  probe.style.fontStyle = cs.fontStyle;\n  probe.style.fontStretch = cs.fontStretch;\n  probe.style.fontKerning = cs.fontKerning;\n  probe.style.fontFeatureSettings = cs.fontFeatureSettings;\n  probe.style.fontVariationSettings = cs.fontVariationSettings;\n  probe.style.fontVariant = cs.fontVariant;\n  probe.style.letterSpacing = cs.letterSpacing;\n  probe.style.lineHeight = cs.lineHeight;\n  probe.style.direction = cs.direction;\n  probe.style.writingMode = writingMode;\n  probe.style.textOrientation = cs.textOrientation;\n  doc.body.appendChild(probe);\n  try {\n    const rect = probe.getBoundingClientRect();\n    return {\n      inlineAdvance: (VERTICAL_WRITING_RE.test(writingMode) ? rect.height : rect.width) * scale,\n      width: rect.width * scale,\n      height: rect.height * scale\n    };\n  } finally {\n    probe.remove();\n  }\n};\nvar createLineClampHandler = ({ vp, measureFontMetrics, normColor, effectiveZoomFor }) => {\n  const contexts = /* @__PURE__ */ new WeakMap();\n  let probeSequence = 0;\n  const analyzeRoot = (el, cs) => {\n    if (contexts.has(el)) return contexts.get(el);\n    const parsed = parseBlinkLineClampCount(cs.webkitLineClamp || \"\");\n    if (parsed == null || cs.webkitBoxOrient !== \"vertical\" || cs.display !== \"flow-root\") {\n      contexts.set(el, null);\n      return null;\n    }\n    const writingMode = cs.writingMode || \"horizontal-tb\";\n    const vertical = VERTICAL_WRITING_RE.test(writingMode);\n    const chars = collectTextCharacters(el, vertical);\n    const lines = groupLogicalLines(chars, writingMode);\n    if (lines.length <= parsed) {\n      contexts.set(el, null);\n      return null;\n    }\n    const activation = blinkLineClampActivation({\n      webkitLineClamp: cs.webkitLineClamp,\n      webkitBoxOrient: cs.webkitBoxOrient,\n      computedDisplay: cs.display,\n      behaviorallyClamps: behaviorallyClampsInClone(el, cs, writingMode)\n    });\n    if (activation == null) {\n      contexts.set(el, null);\n      return null;\n    }\n    const clampLine = lines[activation.clampCount - 1];\n    if (clampLine == null || clampLine.chars.length === 0) {\n      contexts.set(el, null);\n      return null;\n    }\n    const direction = cs.direction === \"rtl\" ? \"rtl\" : \"ltr\";\n    const scale = effectiveZoomFor?.(el) || 1;\n    const markerText = blinkLineClampEllipsisText(primaryFontHasEllipsis(el.ownerDocument, cs));\n    const measured = measureMarker(el.ownerDocument, cs, markerText, writingMode, scale);\n    const inlineStarts = clampLine.chars.map((char) => vertical ? char.top : char.left);\n    const inlineEnds = clampLine.chars.map((char) => vertical ? char.bottom : char.right);\n    const adjacentInlineStart = Math.min(...inlineStarts);\n    const adjacentInlineEnd = Math.max(...inlineEnds);\n    const inlineStart = blinkLineClampInlineStart({\n      direction,\n      adjacentInlineStart,\n      adjacentInlineEnd,\n      ellipsisAdvance: measured.inlineAdvance\n    });\n    const adjacent = direction === \"rtl\" ? clampLine.chars.reduce((best, char) => (vertical ? char.top : char.left) < (vertical ? best.top : best.left) ? char : best) : clampLine.chars.reduce((best, char) => (vertical ? char.bottom : char.right) > (vertical ? best.bottom : best.right) ? char : best);\n    const adjacentStyle = getComputedStyle(adjacent.owner);\n    const adjacentAscent = measureFontMetrics(adjacentStyle).ascent * (effectiveZoomFor?.(adjacent.owner) || 1);\n    const rootMetrics = measureFontMetrics(cs);\n    const rootAscent = rootMetrics.ascent * scale;\n    const baseline = vertical ? adjacent.left + adjacentAscent : adjacent.top + adjacentAscent;\n    const lineLeft = Math.min(...clampLine.chars.map((char) => char.left));\n    const lineRight = Math.max(...clampLine.chars.map((char) => char.right));\n    const lineTop = Math.min(...clampLine.chars.map((char) => char.top));\n    const lineBottom = Math.max(...clampLine.chars.map((char) => char.bottom));\n    const marker = vertical ? {\n      text: markerText,\n      x: lineLeft - vp.x,\n      y: inlineStart - vp.y,\n      width: lineRight - lineLeft,\n      height: measured.inlineAdvance,\n      yOffsets: [inlineStart - vp.y],\n      verticalWritingMode: writingMode,\n      verticalOrientations: [\"rotated\"],\n      verticalAdvances: [measured.inlineAdvance],\n      verticalNaturalWidths: [measured.width],\n      fontAscent: rootMetrics.ascent\n    } : {\n      text: markerText,\n      x: inlineStart - vp.x,\n      y: baseline - rootAscent - vp.y,\n      width: measured.inlineAdvance,\n      height: lineBottom - lineTop,\n      xOffsets: [inlineStart - vp.x],\n      fontAscent: rootMetrics.ascent\n    };\n    Object.assign(marker, {\n      generatedLineClampEllipsis: true,\n      shapedWidth: measured.inlineAdvance,\n      baseline: baseline - (vertical ? vp.x : vp.y),\n      inlineOffset: inlineStart - (vertical ? vp.y : vp.x),\n      color: normColor(cs.color),\n      fontFamily: cs.fontFamily,\n      fontSize: Number.parseFloat(cs.fontSize) || void 0,\n      fontWeight: cs.fontWeight,\n      fontStyle: cs.fontStyle,\n      fontVariant: cs.fontVariant\n    });\n    const probeId = `dm2417-${probeSequence++}`;\n    el.setAttribute(\"data-domotion-line-clamp-probe\", probeId);\n    marker.lineClampProbeId = probeId;\n    const context = { root: el, clampCount: activation.clampCount, writingMode, lines, marker };\n    contexts.set(el, context);\n    return context;\n  };\n  const nearestContext = (el) => {\n    for (let cursor = el; cursor != null; cursor = cursor.parentElement) {\n      const context = contexts.has(cursor) ? contexts.get(cursor) : analyzeRoot(cursor, getComputedStyle(cursor));\n      if (context != null) return context;\n    }\n    return null;\n  };\n  const segmentLineIndex = (segment, context) => {\n    const vertical = VERTICAL_WRITING_RE.test(context.writingMode);\n    const offset = vertical ? segment.x + vp.x : segment.y + vp.y;\n    let bestIndex = -1;\n    let bestDistance = Infinity;\n    for (let index = 0; index < context.lines.length; index++) {\n      const distance = Math.abs(context.lines[index].blockOffset - offset);\n      if (distance < bestDistance) {\n        bestDistance = distance;\n        bestIndex = index;\n      }\n    }\n    return bestDistance <= 1.5 ? bestIndex : -1;\n  };\n  const finalizeLineClampText = (el, cs, result) => {\n    analyzeRoot(el, cs);\n    const context = nearestContext(el);\n    if (context == null) return result;\n    const sourceSegments = result.textSegments || [];\n    const retained = sourceSegments.filter((segment) => {\n      if (segment.generatedLineClampEllipsis) return true;\n      const index = segmentLineIndex(segment, context);\n      return index < 0 || blinkLineClampLineIsVisible(index, context.clampCount);\n    });\n    if (el === context.root && blinkShouldEmitLineClampEllipsis({\n      active: true,\n      clampCount: context.clampCount,\n      totalLineCount: context.lines.length\n    })) retained.push(context.marker);\n    return {\n      ...result,\n      textSegments: retained,\n      lineClampTextFragments: true\n    };\n  };\n  return { finalizeLineClampText };\n};\n\n// src/capture/script/cross-origin.ts\nfunction parseCrossOriginAllowlist(value) {\n  if (value == null) return null;\n  const trimmed = value.trim();\n  if (trimmed === \"\") return null;\n  if (trimmed === \"*\") return \"*\";\n  const entries = [];\n  for (const raw of trimmed.split(\",\")) {\n    const part = raw.trim();\n    if (part === \"\") continue;\n    if (part === \"*\") return \"*\";\n    const colon = part.lastIndexOf(\":\");\n    if (colon > 0 && /^[0-9]+$/.test(part.slice(colon + 1))) {\n      entries.push({ host: part.slice(0, colon).toLowerCase(), port: part.slice(colon + 1) });\n    } else {\n      entries.push({ host: part.toLowerCase(), port: null });\n    }\n  }\n  return entries.length > 0 ? entries : null;\n}\nfunction frameHostAllowed(frameUrl, allow) {\n  if (allow == null) return false;\n  if (allow === \"*\") return true;\n  let host;\n  let port;\n  try {\n    const u = new URL(frameUrl);\n    host = u.hostname.toLowerCase();\n    port = u.port;\n    if (port === \"\") {\n      if (u.protocol === \"https:\") port = \"443\";\n      else if (u.protocol === \"http:\") port = \"80\";\n    }\n  } catch {\n    return false;\n  }\n  for (const entry of allow) {\n    if (entry.host !== host) continue;\n    if (entry.port == null) return true;\n    if (entry.port === port) return true;\n  }\n  return false;\n}\n\n// src/capture/projective-owner.ts\nfunction isAncestor(nodes, ancestor, descendant) {\n  let cursor = descendant;\n  while (cursor != null) {\n    if (cursor === ancestor) return true;\n    cursor = nodes[cursor]?.parent ?? null;\n  }\n  return false;\n}\nfunction selectProjectiveRasterOwnerIndexes(nodes) {\n  const candidates = /* @__PURE__ */ new Set();\n  for (let index = 0; index < nodes.length; index++) {\n    const node = nodes[index];\n    if (node == null || !node.nonAffine) continue;\n    let owner = index;\n    let parent = node.parent;\n    while (parent != null && nodes[parent]?.influenced === true) {\n      owner = parent;\n      parent = nodes[parent]?.parent ?? null;\n    }\n    const inlineSvgRoot = node.inlineSvgRoot;\n    if (inlineSvgRoot != null && isAncestor(nodes, inlineSvgRoot, owner)) {\n      owner = inlineSvgRoot;\n    }\n    candidates.add(owner);\n  }\n  return [...candidates].filter((candidate) => ![...candidates].some(\n    (other) => other !== candidate && isAncestor(nodes, other, candidate)\n  )).sort((a, b) => a - b);\n}\n\n// src/capture/effective-appearance.ts\nvar BACKGROUND_LONGHANDS = [\n  \"background-attachment\",\n  \"background-clip\",\n  \"background-color\",\n  \"background-image\",\n  \"background-origin\",\n  \"background-position-x\",\n  \"background-position-y\",\n  \"background-repeat\",\n  \"background-size\"\n];\nvar PHYSICAL_BORDER_LONGHANDS = [\n  \"border-top-color\",\n  \"border-right-color\",\n  \"border-bottom-color\",\n  \"border-left-color\",\n  \"border-top-style\",\n  \"border-right-style\",\n  \"border-bottom-style\",\n  \"border-left-style\",\n  \"border-top-width\",\n  \"border-right-width\",\n  \"border-bottom-width\",\n  \"border-left-width\",\n  \"border-top-left-radius\",\n  \"border-top-right-radius\",\n  \"border-bottom-right-radius\",\n  \"border-bottom-left-radius\",\n  \"border-image-source\",\n  \"border-image-slice\",\n  \"border-image-width\",\n  \"border-image-outset\",\n  \"border-image-repeat\"\n];\nvar BACKGROUND_SET = new Set(BACKGROUND_LONGHANDS);\nvar BORDER_SET = new Set(PHYSICAL_BORDER_LONGHANDS);\nfunction normalizedAppearance(value) {\n  const appearance = (value ?? \"auto\").trim().toLowerCase();\n  return appearance === \"\" ? \"auto\" : appearance;\n}\nfunction autoAppearanceForControl(control) {\n  const tag = control.tag.toLowerCase();\n  if (tag === \"button\") return \"button\";\n  if (tag === \"progress\") return \"progress-bar\";\n  if (tag === \"meter\") return \"meter\";\n  if (tag === \"textarea\") return \"textarea\";\n  if (tag === \"select\") {\n    const size = Number.isFinite(control.selectSize) ? Math.max(0, control.selectSize ?? 0) : 0;\n    const usesMenuList = control.multiple ? Boolean(control.selectHasSizeAttribute) && size === 1 : size <= 1;\n    return usesMenuList ? \"menulist\" : \"listbox\";\n  }\n  if (tag !== \"input\") return \"none\";\n  switch ((control.type ?? \"text\").toLowerCase()) {\n    case \"button\":\n    case \"reset\":\n    case \"submit\":\n      return \"push-button\";\n    case \"color\":\n      return \"square-button\";\n    case \"checkbox\":\n      return \"checkbox\";\n    case \"radio\":\n      return \"radio\";\n    case \"range\":\n      return \"slider-horizontal\";\n    case \"search\":\n      return \"searchfield\";\n    case \"file\":\n    case \"hidden\":\n    case \"image\":\n      return \"none\";\n    default:\n      return \"textfield\";\n  }\n}\nfunction appearanceNeedsAuthorStyleFacts(appearance) {\n  return (/* @__PURE__ */ new Set([\n    \"button\",\n    \"push-button\",\n    \"square-button\",\n    \"progress-bar\",\n    \"meter\",\n    \"menulist\",\n    \"searchfield\",\n    \"textarea\",\n    \"textfield\"\n  ])).has(appearance);\n}\nfunction elementTypeAdjustedAppearance(specified, control) {\n  const auto = autoAppearanceForControl(control);\n  if (specified === auto) return specified;\n  switch (specified) {\n    case \"none\":\n    case \"base\":\n    case \"base-select\":\n      return specified;\n    case \"auto\":\n    case \"checkbox\":\n    case \"radio\":\n    case \"push-button\":\n    case \"square-button\":\n    case \"inner-spin-button\":\n    case \"listbox\":\n    case \"menulist\":\n    case \"meter\":\n    case \"progress-bar\":\n    case \"slider-horizontal\":\n    case \"slider-thumb-horizontal\":\n    case \"searchfield\":\n    case \"searchfield-cancel-button\":\n    case \"textarea\":\n      return auto;\n    case \"button\":\n      return auto === \"push-button\" || auto === \"square-button\" ? specified : auto;\n    case \"menulist-button\":\n      return auto === \"menulist\" ? specified : auto;\n    case \"slider-vertical\":\n      return auto === \"slider-horizontal\" ? specified : auto;\n    case \"slider-thumb-vertical\":\n      return auto === \"slider-thumb-horizontal\" ? specified : auto;\n    case \"textfield\":\n      return control.tag.toLowerCase() === \"input\" && (control.type ?? \"text\").toLowerCase() === \"search\" ? specified : auto;\n    default:\n      return specified;\n  }\n}\nfunction effectiveAppearanceForControl(specifiedAppearance, control, facts, hasResolvedBoxShadow) {\n  const specified = normalizedAppearance(specifiedAppearance);\n  const appearance = elementTypeAdjustedAppearance(specified, control);\n  if (appearance === \"none\" || appearance === \"base\" || appearance === \"base-select\") {\n    return appearance;\n  }\n  if (!appearanceNeedsAuthorStyleFacts(appearance)) return appearance;\n  if (facts == null || !facts.available) return null;\n  const authorBox = facts.hasAuthorBackground || facts.hasAuthorBorder;\n  switch (appearance) {\n    case \"button\":\n    case \"push-button\":\n    case \"square-button\":\n    case \"progress-bar\":\n    case \"meter\":\n      return authorBox ? \"none\" : appearance;\n    case \"menulist\":\n      return authorBox || hasResolvedBoxShadow ? \"menulist-button\" : appearance;\n    case \"searchfield\":\n    case \"textarea\":\n    case \"textfield\":\n      return authorBox || hasResolvedBoxShadow ? \"none\" : appearance;\n    default:\n      return appearance;\n  }\n}\nfunction isWholeHostNativeAppearance(appearance) {\n  return (/* @__PURE__ */ new Set([\n    \"button\",\n    \"push-button\",\n    \"square-button\",\n    \"progress-bar\",\n    \"meter\",\n    \"menulist\",\n    \"searchfield\",\n    \"textarea\",\n    \"textfield\",\n    \"checkbox\",\n    \"radio\",\n    \"slider-horizontal\",\n    \"slider-vertical\"\n  ])).has(appearance);\n}\n\n// src/capture/native-control-decoration.ts\nvar TEMPORAL_INPUT_TYPES = /* @__PURE__ */ new Set([\n  \"date\",\n  \"datetime-local\",\n  \"month\",\n  \"time\",\n  \"week\"\n]);\nfunction nativeControlDecorationKinds(control, effectiveAppearance, fileSelectorButtonAppearance) {\n  const tag = control.tag.toLowerCase();\n  const type = (control.type ?? \"text\").toLowerCase();\n  if (tag === \"input\" && type === \"file\") {\n    if (fileSelectorButtonAppearance === \"none\" || fileSelectorButtonAppearance === \"base\" || fileSelectorButtonAppearance === \"base-select\") return [];\n    return [\"file-selector-button\"];\n  }\n  if (effectiveAppearance == null || isWholeHostNativeAppearance(effectiveAppearance)) return [];\n  if (effectiveAppearance === \"base\" || effectiveAppearance === \"base-select\") return [];\n  if (tag === \"select\") {\n    return effectiveAppearance === \"menulist-button\" ? [\"menulist-button-arrow\"] : [];\n  }\n  if (tag !== \"input\") return [];\n  if (type === \"number\") return [\"inner-spin-button\"];\n  if (type === \"search\") return [\"search-cancel-button\"];\n  if (TEMPORAL_INPUT_TYPES.has(type)) {\n    return [\"calendar-picker-indicator\"];\n  }\n  return [];\n}\n\n// src/capture/script/index.ts\nvar captureDocumentTree = (args) => {\n  const sel = args.sel;\n  const vp = args.vp;\n  const _crossOriginAllow = parseCrossOriginAllowlist(args.cof);\n  const _svgReferenceScopes = /* @__PURE__ */ new WeakMap();\n  let _nextSvgReferenceScope = 0;\n  function _svgReferenceScope(el) {\n    var root2 = el.getRootNode ? el.getRootNode() : el.ownerDocument;\n    var existing = _svgReferenceScopes.get(root2);\n    if (existing != null) return existing;\n    var allocated = _nextSvgReferenceScope++;\n    _svgReferenceScopes.set(root2, allocated);\n    return allocated;\n  }\n  let _backdropRasterSeq = 0;\n  function _textPaintRegistryFor(el) {\n    if (typeof args.tgk !== \"string\" || args.tgk === \"\") return void 0;\n    var view = el.ownerDocument != null ? el.ownerDocument.defaultView : void 0;\n    return view != null ? view[args.tgk] : void 0;\n  }\n  function _textPaintElementIndexFor(el) {\n    var registry = _textPaintRegistryFor(el);\n    return registry != null && registry.indexByElement != null ? registry.indexByElement.get(el) : void 0;\n  }\n  function _textPaintFactFor(el) {\n    var registry = _textPaintRegistryFor(el);\n    var index = _textPaintElementIndexFor(el);\n    return registry != null && index != null && registry.factsByElement != null ? registry.factsByElement[index] : void 0;\n  }\n  function _textPaintSourceKeyFor(el) {\n    var registry = _textPaintRegistryFor(el);\n    var index = _textPaintElementIndexFor(el);\n    return registry != null && index != null ? registry.token + \":\" + index : void 0;\n  }\n  function _pseudoFragmentFactsFor(el) {\n    if (typeof args.pgk !== \"string\" || args.pgk === \"\") return void 0;\n    var view = el.ownerDocument != null ? el.ownerDocument.defaultView : void 0;\n    var registry = view != null ? view[args.pgk] : void 0;\n    var index = registry != null && registry.indexByElement != null ? registry.indexByElement.get(el) : void 0;\n    return registry != null && index != null && registry.factsByElement != null ? registry.factsByElement[index] : void 0;\n  }\n  const { normColor, normGradientColors } = createColorNorm();\n  const { rasterCandidates, textNeedsRaster } = createEmojiDetect();\n  const { markGetsDottedCircle } = createDottedCircleDetect();\n  const { measureFontMetrics: _measureFontMetrics, substituteAliasedFamilies: _substituteAliasedFamilies } = createFontMetrics();\n  const { resolvePlaceholderShownBg: _resolvePlaceholderShownBg } = createPlaceholderShown();\n  const { familyIsUADefault: _familyIsUADefault } = createFontFamilyDefault();\n  const _fontFeatureValuesByDocument = /* @__PURE__ */ new WeakMap();\n  const _fontFeatureValuesFor = (doc) => {\n    let tables = _fontFeatureValuesByDocument.get(doc);\n    if (tables == null) {\n      tables = collectFontFeatureValues(doc);\n      _fontFeatureValuesByDocument.set(doc, tables);\n    }\n    return tables;\n  };\n  const { resolvePseudo: _resolvePseudo, resolveCornerRadius: _resolveCornerRadius } = createPseudoRules(args.ps, args.pk);\n  const { warn, shortSelector, warnings: _warnings } = createWarnings();\n  const _counterStyles = {};\n  const _runCounterStylePrewalk = createCounterStylePrewalk({ counterStyles: _counterStyles });\n  const { resolveCounterStyle, resolveCounterValue, isCustomCounterStyle } = createCounterStyleResolver({ counterStyles: _counterStyles });\n  const { captureListsCounters } = createListsCountersHandler({ normColor, resolveCounterStyle, isCustomCounterStyle, measureFontMetrics: _measureFontMetrics });\n  const { handleReplacedElement } = createReplacedElementsHandler({ vp });\n  const { discoverMasks, computeMaskIntrinsic, discoverClipPaths, discoverFilters, maskDefs: _maskDefs, maskRasters: _maskRasters, clipPathDefs: _clipPathDefs, filterDefs: _filterDefs } = createMasksClipsHandler({ vp, warn });\n  const { captureFormControls } = createFormControlsHandler({ normColor, resolvePseudo: _resolvePseudo });\n  const { wrapWithFrozenTransform, threadFrozenTransform } = createTransformsHandler();\n  const { captureBordersBackgrounds, isTableCellHiddenByEmptyCells } = createBordersBackgroundsHandler({\n    normColor,\n    normGradientColors,\n    resolvePlaceholderShownBg: _resolvePlaceholderShownBg,\n    resolveCornerRadius: _resolveCornerRadius,\n    effectiveZoomFor: (el) => _effectiveZoomFor(el),\n    warn,\n    shortSelector,\n    vp\n  });\n  const { captureBackgroundAttachment } = createBackgroundAttachmentHandler({\n    vp,\n    transformRelatedBoxFor: (el) => _transformRelatedBox.get(el),\n    effectiveZoomFor: (el) => _effectiveZoomFor(el),\n    scrollbarPropertyKey: args.sk\n  });\n  const { capturePseudoContent } = createPseudoContentHandler({\n    vp,\n    normColor,\n    measureFontMetrics: _measureFontMetrics,\n    textNeedsRaster,\n    resolveCounterValue,\n    isCustomCounterStyle,\n    composeEffectiveTransform,\n    effectiveZoomFor: (el) => _effectiveZoomFor(el),\n    physicalComputedCssPixelTerms: physicalComputedTileSize\n  });\n  const { captureInputValue } = createInputValueHandler({ vp, normColor, measureFontMetrics: _measureFontMetrics });\n  const { finalizeLineClampText } = createLineClampHandler({\n    vp,\n    measureFontMetrics: _measureFontMetrics,\n    normColor,\n    effectiveZoomFor: (el) => _effectiveZoomFor(el)\n  });\n  const { captureTextSegments } = createTextSegmentsHandler({\n    vp,\n    measureFontMetrics: _measureFontMetrics,\n    rasterCandidates,\n    normColor,\n    markGetsDottedCircle,\n    finalizeLineClampText\n  });\n  const { injectPseudoSegments } = createPseudoInjectHandler();\n  const { captureResizeHandle } = createResizeHandleHandler({\n    resolvePseudo: _resolvePseudo,\n    normColor,\n    effectiveZoomFor: (el) => _effectiveZoomFor(el),\n    themeThickness: args.rt,\n    scaleFromDIP: args.rs,\n    vp\n  });\n  const capture = (el) => {\n    const styleWindow = el.ownerDocument?.defaultView ?? window;\n    const cs = styleWindow.getComputedStyle(el);\n    return wrapWithFrozenTransform(el, cs, captureInner);\n  };\n  const captureInner = (el, cs, frozenTransform, frozenTransformOrigin) => {\n    const rect = el.getBoundingClientRect();\n    const _textPaintFact = _textPaintFactFor(el);\n    const _pseudoFragmentFacts = _pseudoFragmentFactsFor(el);\n    let projectiveTransform;\n    let projectiveHidden;\n    let transformSubtreeRaster;\n    const _quad = _projectedQuads.get(el);\n    if (_quad != null && rect.width > 0 && rect.height > 0) {\n      const _abs = _homographyForRect(rect, _quad);\n      if (_abs != null) {\n        const _parentAbs = el.parentElement != null ? _projectiveAbsH.get(el.parentElement) : void 0;\n        const _parentInv = _parentAbs != null ? _invertH(_parentAbs) : null;\n        projectiveTransform = _parentInv != null ? _mulH(_parentInv, _abs) : _abs;\n        _projectiveAbsH.set(el, _abs);\n        const _area = (_quad[1].x - _quad[0].x) * (_quad[3].y - _quad[0].y) - (_quad[1].y - _quad[0].y) * (_quad[3].x - _quad[0].x);\n        projectiveHidden = cs.backfaceVisibility === \"hidden\" && _area < 0;\n      }\n    }\n    const _makeTransformSubtreeRaster = () => {\n      let _left = rect.left, _top = rect.top, _right = rect.right, _bottom = rect.bottom;\n      const _subs = el.getElementsByTagName(\"*\");\n      for (let _ri = 0; _ri < _subs.length; _ri++) {\n        const _rr = _subs[_ri].getBoundingClientRect();\n        if (_rr.width <= 0 || _rr.height <= 0) continue;\n        _left = Math.min(_left, _rr.left);\n        _top = Math.min(_top, _rr.top);\n        _right = Math.max(_right, _rr.right);\n        _bottom = Math.max(_bottom, _rr.bottom);\n      }\n      const _rx = Math.max(vp.x, _left), _ry = Math.max(vp.y, _top);\n      const _rright = Math.min(vp.x + vp.width, _right), _rbottom = Math.min(vp.y + vp.height, _bottom);\n      if (_rright > _rx && _rbottom > _ry) {\n        return {\n          x: _rx - vp.x,\n          y: _ry - vp.y,\n          width: _rright - _rx,\n          height: _rbottom - _ry,\n          sourceNodeIndex: _projectiveNodeIndex.get(el)\n        };\n      }\n      return { x: 0, y: 0, width: 0, height: 0, sourceNodeIndex: _projectiveNodeIndex.get(el) };\n    };\n    if (_nonAffineProjectiveRoots.has(el)) {\n      transformSubtreeRaster = _makeTransformSubtreeRaster();\n    }\n    if (_textPaintFact != null && _textPaintFact.surfaceReason != null && transformSubtreeRaster == null) {\n      transformSubtreeRaster = _makeTransformSubtreeRaster();\n      warn(shortSelector(el), \"<transform>\", \"Chromium text-fragment geometry unavailable; retained one outer raster surface: \" + _textPaintFact.surfaceReason);\n    }\n    const outsideViewport = isOutsideCaptureViewport(rect, vp);\n    if (outsideViewport && !_fixedAncestors.has(el) && !_transformInfluenced.has(el) && !_animInfluenced.has(el)) return null;\n    const _earlyTag = el.tagName.toLowerCase();\n    const bordersOnlyCell = (_earlyTag === \"td\" || _earlyTag === \"th\") && (cs.visibility === \"hidden\" || cs.visibility === \"collapse\") && cs.borderCollapse === \"collapse\";\n    if (cs.display === \"none\") return null;\n    if ((cs.visibility === \"hidden\" || cs.visibility === \"collapse\") && !bordersOnlyCell) return null;\n    const _contentVisHidden = cs.contentVisibility === \"hidden\";\n    const _clip = cs.clip || \"\";\n    if (_clip !== \"auto\" && _clip !== \"\" && _clip !== \"normal\") {\n      const _cm = _clip.match(/rect\\(\\s*([^,\\s]+)[ ,]+([^,\\s]+)[ ,]+([^,\\s]+)[ ,]+([^)\\s]+)\\s*\\)/);\n      if (_cm != null && parseFloat(_cm[1]) === 0 && parseFloat(_cm[2]) === 0 && parseFloat(_cm[3]) === 0 && parseFloat(_cm[4]) === 0) {\n        return null;\n      }\n    }\n    const _cp = cs.clipPath || \"\";\n    if (_cp.indexOf(\"inset(\") === 0) {\n      const _ipm = _cp.match(/inset\\(\\s*([0-9.]+)\\s*%/);\n      if (_ipm != null && parseFloat(_ipm[1]) >= 50) return null;\n    }\n    if (rect.width <= 1 && rect.height <= 1 && (cs.overflow === \"hidden\" || cs.overflowX === \"hidden\" || cs.overflowY === \"hidden\") && (cs.position === \"absolute\" || cs.position === \"fixed\")) {\n      return null;\n    }\n    const zeroSized = rect.width === 0 || rect.height === 0;\n    const _hasAnim = el.dataset != null && el.dataset.domotionAnim != null && el.dataset.domotionAnim !== \"\";\n    const _inkTextZeroWidth = rect.width === 0 && rect.height > 0 && el.textContent != null && el.textContent.trim().length > 0;\n    const _keepImageFallbackState = el.tagName != null && el.tagName.toLowerCase() === \"img\";\n    if (zeroSized && el.children.length === 0 && !_hasAnim && !_inkTextZeroWidth && !_keepImageFallbackState) return null;\n    const tag = el.tagName.toLowerCase();\n    const sel2 = shortSelector(el);\n    const _nativeControlTag = tag === \"input\" || tag === \"select\" || tag === \"textarea\" || tag === \"button\" || tag === \"progress\" || tag === \"meter\";\n    const _specifiedAppearance = cs.webkitAppearance || cs.appearance || \"auto\";\n    const _autoAppearanceDescriptor = {\n      tag,\n      type: tag === \"input\" ? el.type || \"text\" : void 0,\n      multiple: tag === \"select\" ? !!el.multiple : void 0,\n      selectSize: tag === \"select\" ? +el.size : void 0,\n      selectHasSizeAttribute: tag === \"select\" ? el.hasAttribute(\"size\") : void 0\n    };\n    const _appearanceFacts = typeof args.eak === \"string\" && args.eak !== \"\" ? el[args.eak] : void 0;\n    const _effectiveAppearance = _nativeControlTag ? effectiveAppearanceForControl(\n      _specifiedAppearance,\n      _autoAppearanceDescriptor,\n      _appearanceFacts,\n      cs.boxShadow != null && cs.boxShadow !== \"\" && cs.boxShadow !== \"none\"\n    ) : \"none\";\n    const _nativeDecorationRefs = typeof args.ndk === \"string\" && args.ndk !== \"\" && Array.isArray(el[args.ndk]) ? el[args.ndk] : [];\n    let _fileSelectorButtonAppearance;\n    for (let _fri = 0; _fri < _nativeDecorationRefs.length; _fri++) {\n      const _fileRef = _nativeDecorationRefs[_fri];\n      if (_fileRef == null || _fileRef.kind !== \"file-selector-button\") continue;\n      _fileSelectorButtonAppearance = _fileRef.ownership == null ? null : _fileRef.ownership.effectiveAppearance;\n      break;\n    }\n    const _nativeDecorationKinds = _nativeControlTag ? nativeControlDecorationKinds(\n      _autoAppearanceDescriptor,\n      _effectiveAppearance,\n      tag === \"input\" && el.type === \"file\" ? _fileSelectorButtonAppearance : void 0\n    ) : [];\n    const _nativeDecorationParts = [];\n    const _missingNativeDecorationKinds = [];\n    let _nativeDecorationUnavailableReason;\n    for (let _dki = 0; _dki < _nativeDecorationKinds.length; _dki++) {\n      const _kind = _nativeDecorationKinds[_dki];\n      if (_kind === \"menulist-button-arrow\") continue;\n      let _found = false;\n      for (let _dri = 0; _dri < _nativeDecorationRefs.length; _dri++) {\n        const _entry = _nativeDecorationRefs[_dri];\n        if (_entry == null || _entry.kind !== _kind || !(_entry.node instanceof Element)) continue;\n        _found = true;\n        if (_kind === \"file-selector-button\" && (_entry.ownership == null || _entry.ownership.effectiveAppearance == null)) {\n          _nativeDecorationUnavailableReason = _entry.ownership && _entry.ownership.reason ? _entry.ownership.reason : \"file-selector child EffectiveAppearance unavailable\";\n        }\n        const _part = _entry.node;\n        const _partStyle = getComputedStyle(_part);\n        const _partRect = _part.getBoundingClientRect();\n        const _partOpacity = parseFloat(_partStyle.opacity);\n        if (_part.isConnected && _partStyle.display !== \"none\" && _partStyle.visibility === \"visible\" && (!isFinite(_partOpacity) || _partOpacity > 0) && _partRect.width > 0 && _partRect.height > 0) {\n          _nativeDecorationParts.push({\n            kind: _kind,\n            index: _dri,\n            x: _partRect.left,\n            y: _partRect.top,\n            width: _partRect.width,\n            height: _partRect.height\n          });\n        }\n      }\n      if (!_found) _missingNativeDecorationKinds.push(_kind);\n    }\n    if (_nativeDecorationKinds.indexOf(\"file-selector-button\") >= 0) {\n      let _fileStatusFound = false;\n      for (let _dri = 0; _dri < _nativeDecorationRefs.length; _dri++) {\n        const _entry = _nativeDecorationRefs[_dri];\n        if (_entry == null || _entry.kind !== \"file-selector-status\" || !(_entry.node instanceof Element)) continue;\n        _fileStatusFound = true;\n        const _statusRect = _entry.node.getBoundingClientRect();\n        if (_entry.node.isConnected && _statusRect.width >= 0 && _statusRect.height >= 0) {\n          _nativeDecorationParts.push({\n            kind: \"file-selector-status\",\n            index: _dri,\n            x: _statusRect.left,\n            y: _statusRect.top,\n            width: _statusRect.width,\n            height: _statusRect.height\n          });\n        }\n      }\n      if (!_fileStatusFound) _missingNativeDecorationKinds.push(\"file-selector-status\");\n    }\n    if (_nativeDecorationKinds.indexOf(\"menulist-button-arrow\") >= 0) {\n      let _selectInnerFound = false;\n      for (let _dri = 0; _dri < _nativeDecorationRefs.length; _dri++) {\n        const _entry = _nativeDecorationRefs[_dri];\n        if (_entry == null || _entry.kind !== \"select-inner\" || !(_entry.node instanceof Element)) continue;\n        _selectInnerFound = true;\n        const _partRect = _entry.node.getBoundingClientRect();\n        if (_entry.node.isConnected && _partRect.width >= 0 && _partRect.height >= 0) {\n          _nativeDecorationParts.push({\n            kind: \"select-inner\",\n            index: _dri,\n            x: _partRect.left,\n            y: _partRect.top,\n            width: _partRect.width,\n            height: _partRect.height\n          });\n        }\n      }\n      if (!_selectInnerFound) _missingNativeDecorationKinds.push(\"select-inner\");\n    }\n    let _fileSelectorCapture;\n    if (tag === \"input\" && el.type === \"file\") {\n      let _buttonNode;\n      let _statusNode;\n      for (let _fri = 0; _fri < _nativeDecorationRefs.length; _fri++) {\n        const _entry = _nativeDecorationRefs[_fri];\n        if (_entry == null || !(_entry.node instanceof Element)) continue;\n        if (_entry.kind === \"file-selector-button\") _buttonNode = _entry.node;\n        else if (_entry.kind === \"file-selector-status\") _statusNode = _entry.node;\n      }\n      const _paintScale = _effectiveZoomFor(el);\n      const _buttonRect = _buttonNode && _buttonNode.getBoundingClientRect();\n      const _buttonStyle = _buttonNode && getComputedStyle(_buttonNode);\n      const _buttonMetrics = _buttonStyle && _measureFontMetrics(_buttonStyle);\n      let _buttonTextWidth = 0;\n      if (_buttonNode && _buttonStyle) {\n        try {\n          const _buttonCanvas = document.createElement(\"canvas\");\n          const _buttonCtx = _buttonCanvas.getContext(\"2d\");\n          if (_buttonCtx) {\n            _buttonCtx.font = _buttonStyle.font;\n            _buttonTextWidth = _buttonCtx.measureText(\n              _buttonNode.value || _buttonNode.getAttribute(\"value\") || \"\"\n            ).width * _paintScale;\n          }\n        } catch (_e) {\n        }\n      }\n      const _statusRect = _statusNode && _statusNode.getBoundingClientRect();\n      const _statusStyle = _statusNode && getComputedStyle(_statusNode);\n      const _statusText = _statusNode && captureTextSegments(_statusNode, _statusStyle);\n      if (_statusText && Array.isArray(_statusText.textSegments)) {\n        for (let _fsi = 0; _fsi < _statusText.textSegments.length; _fsi++) {\n          const _seg = _statusText.textSegments[_fsi];\n          if (_seg.fontAscent != null) _seg.fontAscent *= _paintScale;\n          if (_seg.fontDescent != null) _seg.fontDescent *= _paintScale;\n          if (_seg.fontSize != null) _seg.fontSize *= _paintScale;\n          if (Array.isArray(_seg.verticalNaturalWidths)) {\n            _seg.verticalNaturalWidths = _seg.verticalNaturalWidths.map((_width) => _width * _paintScale);\n          }\n        }\n      }\n      _fileSelectorCapture = {\n        fileSelectorButton: _buttonRect && _buttonStyle && _buttonMetrics ? {\n          x: _buttonRect.left - vp.x,\n          y: _buttonRect.top - vp.y,\n          width: _buttonRect.width,\n          height: _buttonRect.height,\n          text: _buttonNode.value || _buttonNode.getAttribute(\"value\") || \"\",\n          textWidth: _buttonTextWidth,\n          fontSize: (parseFloat(_buttonStyle.fontSize) || 0) * _paintScale,\n          fontFamily: _buttonStyle.fontFamily,\n          fontWeight: _buttonStyle.fontWeight,\n          fontStyle: _buttonStyle.fontStyle,\n          fontAscent: _buttonMetrics.ascent * _paintScale,\n          fontDescent: _buttonMetrics.descent * _paintScale,\n          color: normColor(_buttonStyle.color),\n          boxShadow: _buttonStyle.boxShadow,\n          borderRadius: _buttonStyle.borderRadius,\n          writingMode: _buttonStyle.writingMode,\n          textOrientation: _buttonStyle.textOrientation,\n          direction: _buttonStyle.direction\n        } : void 0,\n        fileSelectorStatus: _statusRect && _statusStyle && _statusText ? {\n          x: _statusRect.left - vp.x,\n          y: _statusRect.top - vp.y,\n          width: _statusRect.width,\n          height: _statusRect.height,\n          text: _statusText.text || _statusNode.textContent || \"\",\n          textSegments: _statusText.textSegments,\n          fontSize: (parseFloat(_statusStyle.fontSize) || 0) * _paintScale,\n          fontFamily: _statusStyle.fontFamily,\n          fontWeight: _statusStyle.fontWeight,\n          fontStyle: _statusStyle.fontStyle,\n          fontAscent: (_statusText.fontAscent || 0) * _paintScale,\n          fontDescent: (_statusText.fontDescent || 0) * _paintScale,\n          color: normColor(_statusStyle.color),\n          writingMode: _statusStyle.writingMode,\n          textOrientation: _statusStyle.textOrientation,\n          direction: _statusStyle.direction\n        } : void 0\n      };\n    }\n    if (_nativeControlTag && _effectiveAppearance == null) {\n      const _autoAppearance = _specifiedAppearance === \"auto\" ? autoAppearanceForControl(_autoAppearanceDescriptor) : _specifiedAppearance;\n      if (appearanceNeedsAuthorStyleFacts(_autoAppearance)) {\n        const _reason = _appearanceFacts && _appearanceFacts.reason ? _appearanceFacts.reason : args.ear || \"no correlated Chromium matched-style facts\";\n        warn(\n          sel2,\n          \"effective-appearance-cascade\",\n          \"author background/border origin unavailable (\" + _reason + \"); preserving a conservative Chromium host raster\"\n        );\n      }\n    }\n    if (cs.transform && cs.transform.startsWith(\"matrix3d\")) {\n      warn(sel2, \"transform-3d\", \"static 3D plane projected to vector SVG from Chromium-measured corners\");\n    }\n    if (cs.backdropFilter && cs.backdropFilter !== \"none\") {\n      warn(sel2, \"backdrop-filter\", \"approximated via a frosted-glass background fallback for the transparent-backdrop case (doc 19); no true backdrop blur\");\n    }\n    if (cs.position === \"fixed\" || cs.position === \"sticky\") {\n      warn(sel2, \"position:\" + cs.position, \"rendered as a static snapshot at t=0; scroll-following behavior is not animated\");\n    }\n    discoverMasks(el, cs, sel2);\n    discoverClipPaths(el, cs, sel2);\n    const urlFilterRasterToken = discoverFilters(el, cs, sel2);\n    if (cs.borderImageSource && cs.borderImageSource !== \"none\") {\n      warn(sel2, \"border-image\", \"9-slice composition pending (SK-466); border-image-source ignored\");\n    }\n    if (tag === \"canvas\" || tag === \"video\" || tag === \"object\" || tag === \"embed\") {\n      warn(sel2, \"<\" + tag + \">\", \"element type is not rendered by domotion\");\n    } else if (tag === \"iframe\") {\n      if (_iframeIsRecursable(el) == null) {\n        warn(sel2, \"<iframe>\", \"cross-origin / inaccessible frame rendered as a static raster snapshot; same-origin frames recurse to native SVG\");\n      }\n    }\n    if (cs.textAlign === \"justify\") {\n      warn(sel2, \"text-align:justify\", \"path-mode renderer does not space-stretch justified text\");\n    }\n    let text = \"\";\n    let imageSrc = void 0;\n    let svgContent = void 0;\n    let textTop = 0;\n    let textLeft = 0;\n    let textHeight = 0;\n    let textWidth = 0;\n    let fontAscent = 0;\n    let fontDescent = 0;\n    let inputXOffsets;\n    let placeholderColor;\n    let placeholderFontStyle;\n    let placeholderFontWeight;\n    let lineClampTextFragments = false;\n    const textSegments = [];\n    const _pcResult = _contentVisHidden || Array.isArray(_pseudoFragmentFacts) ? { pseudoSegments: [], pseudoBoxes: [] } : capturePseudoContent(el, cs, rect, _counterSnapshot);\n    const pseudoSegments = _pcResult.pseudoSegments;\n    const pseudoBoxes = _pcResult.pseudoBoxes;\n    const textIsHiddenFallback = tag === \"meter\" || tag === \"progress\" || tag === \"datalist\" || tag === \"option\" || tag === \"optgroup\";\n    if (tag !== \"svg\" && tag !== \"img\" && !textIsHiddenFallback && !_contentVisHidden) {\n      const _iv = captureInputValue(el, cs, tag, rect);\n      var isPlaceholderCapture = false;\n      if (_iv.applied) {\n        text = _iv.text;\n        textLeft = _iv.textLeft;\n        textTop = _iv.textTop;\n        textHeight = _iv.textHeight;\n        textWidth = _iv.textWidth;\n        fontAscent = _iv.fontAscent;\n        fontDescent = _iv.fontDescent;\n        inputXOffsets = _iv.inputXOffsets;\n        if (_iv.textSegments != null) for (const seg of _iv.textSegments) textSegments.push(seg);\n        isPlaceholderCapture = _iv.isPlaceholderCapture;\n        placeholderColor = _iv.placeholderColor;\n        placeholderFontStyle = _iv.placeholderFontStyle;\n        placeholderFontWeight = _iv.placeholderFontWeight;\n      } else {\n        const _ts = captureTextSegments(el, cs);\n        text = _ts.text;\n        lineClampTextFragments = _ts.lineClampTextFragments === true;\n        for (const seg of _ts.textSegments) textSegments.push(seg);\n        if (_ts.textLeft != null) {\n          textLeft = _ts.textLeft;\n          textTop = _ts.textTop;\n          textWidth = _ts.textWidth;\n          textHeight = _ts.textHeight;\n          fontAscent = _ts.fontAscent;\n          fontDescent = _ts.fontDescent;\n        }\n      }\n    }\n    const _pi = Array.isArray(_pseudoFragmentFacts) ? { pseudoImages: [], text, textLeft, textTop, textWidth, textHeight, fontAscent } : injectPseudoSegments(el, pseudoSegments, textSegments, {\n      text,\n      textLeft,\n      textTop,\n      textWidth,\n      textHeight,\n      fontAscent\n    });\n    const pseudoImages = _pi.pseudoImages;\n    text = _pi.text;\n    textLeft = _pi.textLeft;\n    textTop = _pi.textTop;\n    textWidth = _pi.textWidth;\n    textHeight = _pi.textHeight;\n    fontAscent = _pi.fontAscent;\n    var _segmentZoom = _effectiveZoomFor(el);\n    for (const _seg of textSegments) {\n      var _segLogicalSize = _seg.fontSize ?? parseFloat(cs.fontSize);\n      if (!isFinite(_segLogicalSize) || _segLogicalSize <= 0) continue;\n      var _segMetricStyle = {\n        fontStyle: _seg.fontStyle ?? cs.fontStyle,\n        fontWeight: _seg.fontWeight ?? cs.fontWeight,\n        fontSize: _segLogicalSize + \"px\",\n        fontFamily: _seg.fontFamily ?? cs.fontFamily\n      };\n      var _segLogicalMetrics = _measureFontMetrics(_segMetricStyle);\n      var _segComputedMetrics = _measureFontMetrics(_segMetricStyle, (_segLogicalSize * _segmentZoom).toFixed(4) + \"px\");\n      if (_seg.fontAscent === _segLogicalMetrics.ascent) _seg.fontAscent = _segComputedMetrics.ascent;\n      if (_seg.fontDescent === _segLogicalMetrics.descent) _seg.fontDescent = _segComputedMetrics.descent;\n      if (_seg.fontSize != null) _seg.fontSize = _segLogicalSize * _segmentZoom;\n    }\n    let textImageUri = void 0;\n    const textImageScale = 2;\n    if (tag === \"img\") {\n      imageSrc = el.currentSrc || el.src;\n      if (el.naturalWidth > 0 && el.naturalHeight > 0) {\n        var imageIntrinsic = { w: el.naturalWidth, h: el.naturalHeight };\n      }\n      var imageBroken = el.complete && el.naturalWidth === 0;\n      var imageAlt = el.alt || \"\";\n      var _imageHasSrc = el.hasAttribute(\"src\");\n      var _imageHasAlt = el.hasAttribute(\"alt\");\n      var _imageHasTitle = el.hasAttribute(\"title\");\n      var brokenImageFallback = {\n        schemaVersion: 1,\n        authority: \"chromium-ua-shadow-v1\",\n        sourceNodeIndex: _projectiveNodeIndex.get(el),\n        selector: sel2,\n        effectiveZoom: _effectiveZoomFor(el),\n        hostRect: {\n          x: rect.left - vp.x,\n          y: rect.top - vp.y,\n          width: rect.width,\n          height: rect.height\n        },\n        source: {\n          complete: el.complete === true,\n          naturalWidth: Number(el.naturalWidth) || 0,\n          naturalHeight: Number(el.naturalHeight) || 0,\n          currentSrc: el.currentSrc || \"\",\n          src: { present: _imageHasSrc, value: _imageHasSrc ? el.getAttribute(\"src\") : null },\n          alt: { present: _imageHasAlt, value: _imageHasAlt ? el.getAttribute(\"alt\") : null },\n          title: { present: _imageHasTitle, value: _imageHasTitle ? el.getAttribute(\"title\") : null },\n          // Blink HTMLImageElement::AltText: a present alt wins even when it\n          // is empty; title is consulted only when alt is absent.\n          resolvedText: _imageHasAlt ? el.getAttribute(\"alt\") || \"\" : _imageHasTitle ? el.getAttribute(\"title\") || \"\" : \"\"\n        }\n      };\n    } else if (tag === \"input\" && el.type === \"image\") {\n      imageSrc = el.src;\n    }\n    const _listsCounters = captureListsCounters(el, cs, tag);\n    let svgReferenceScope = void 0;\n    if (tag === \"svg\") {\n      const inlineSvgCapture = captureInlineSvg(el, cs, warn, sel2);\n      svgContent = inlineSvgCapture.content;\n      if (inlineSvgCapture.affineFreezeFailed && transformSubtreeRaster == null) {\n        transformSubtreeRaster = _makeTransformSubtreeRaster();\n      }\n      svgReferenceScope = _svgReferenceScope(el);\n    }\n    const children = [];\n    if (_contentVisHidden) {\n    } else\n      for (const child of el.children) {\n        if (tag === \"details\" && !el.open && child.tagName.toLowerCase() !== \"summary\") continue;\n        if (tag === \"select\" && (child.tagName.toLowerCase() === \"option\" || child.tagName.toLowerCase() === \"optgroup\")) continue;\n        const c = capture(child);\n        if (c) {\n          const _grp = c.scrollMarkerGroup;\n          const _before = c._scrollMarkerGroupBefore;\n          delete c.scrollMarkerGroup;\n          delete c._scrollMarkerGroupBefore;\n          const _btns = c.scrollButtons;\n          delete c.scrollButtons;\n          if (_grp && _before) children.push(_grp);\n          children.push(c);\n          if (_grp && !_before) children.push(_grp);\n          if (_btns) for (let _bi = 0; _bi < _btns.length; _bi++) children.push(_btns[_bi]);\n        }\n      }\n    const _animId = el.dataset != null ? el.dataset.domotionAnim : void 0;\n    const _magicKey = el.dataset != null ? el.dataset.magicKey : void 0;\n    const _fsBox = computeFieldsetLegendBox(el, tag, rect, vp);\n    const _captured = {\n      tag,\n      text,\n      x: _fsBox.x,\n      y: _fsBox.y,\n      width: _fsBox.width,\n      height: _fsBox.height,\n      fieldsetLegendNotch: _fsBox.fieldsetLegendNotch,\n      resizeHandle: captureResizeHandle(el, cs, tag, rect),\n      // DM-2481: populated by the Node-side live Chromium marker probe.  The\n      // serialized record is already in capture-viewport coordinates and may\n      // be explicitly partial/unavailable; the renderer must never infer a\n      // replacement from scrollWidth/clientWidth or scroll offsets.\n      scrollbars: (function() {\n        const _record = typeof args.sk === \"string\" && args.sk !== \"\" ? el[args.sk] : void 0;\n        if (_record == null && (cs.overflowX === \"auto\" || cs.overflowX === \"scroll\" || cs.overflowY === \"auto\" || cs.overflowY === \"scroll\")) {\n          warn(sel2, \"scrollbar-capture\", \"live Chromium scrollbar probe did not correlate this scroll host; legacy synthesis is disabled\");\n        }\n        return _record;\n      })(),\n      animId: _animId,\n      magicKey: _magicKey,\n      // DM-2457: private correlation only. The Node/CDP post-pass resolves the\n      // real generated ::marker fragment and deletes this index before return.\n      _summaryMarkerSourceNodeIndex: tag === \"summary\" && cs.display != null && cs.display.includes(\"list-item\") ? _projectiveNodeIndex.get(el) : void 0,\n      svgReferenceScope,\n      // DM-1106: effective cursor keyword for the auto cursor-overlay hit-test.\n      // Omitted when it resolves to the default arrow (the common case) to keep\n      // the tree lean — the overlay treats a missing value as `default`.\n      cursor: (() => {\n        const _c = resolveElementCursor(el, cs);\n        return _c === \"default\" ? void 0 : _c;\n      })(),\n      styles: {\n        // Border + background + outline + box-shadow fields — see\n        // walker/borders-backgrounds.ts. Includes the\n        // backgroundColor placeholder-shown fallback (DM-283), %-resolved\n        // corner radii (SK-1093), per-side color-input border tint\n        // workaround (DM-434), frosted-bg fallback (DM-476), per-layer\n        // background-image intrinsic dims (DM-308), and border-image\n        // intrinsic dims.\n        ...captureBordersBackgrounds(el, cs, tag, rect, isPlaceholderCapture, _effectiveZoomFor(el)),\n        backgroundAttachmentGeometry: (function() {\n          const _scale = _backgroundAttachmentPaintScaleFor(el);\n          return captureBackgroundAttachment(el, cs, rect, _scale[0], _scale[1]);\n        })(),\n        overflowX: cs.overflowX,\n        overflowY: cs.overflowY,\n        // DM-761: `overflow-clip-margin` extends the overflow clip outward\n        // from a reference box (content / padding / border) by a length.\n        // Blink serializes computed lengths before effective CSS zoom while\n        // DOMRects are already physical. Cross that boundary once here; the\n        // reference-box keyword is retained byte-for-byte.\n        overflowClipMargin: cs.overflowClipMargin ? physicalComputedTileSize(cs.overflowClipMargin, _effectiveZoomFor(el)) : void 0,\n        scrollbarGutter: cs.scrollbarGutter || \"auto\",\n        scrollWidth: el.scrollWidth,\n        scrollHeight: el.scrollHeight,\n        clientWidth: el.clientWidth,\n        clientHeight: el.clientHeight,\n        scrollTop: el.scrollTop,\n        scrollLeft: el.scrollLeft,\n        objectFit: cs.objectFit,\n        objectPosition: cs.objectPosition,\n        filter: cs.filter,\n        backdropFilter: cs.backdropFilter || cs.webkitBackdropFilter || \"\",\n        mixBlendMode: cs.mixBlendMode,\n        clipPath: cs.clipPath,\n        mask: cs.mask || cs.webkitMask || \"\",\n        maskImage: cs.maskImage || cs.webkitMaskImage || \"\",\n        maskMode: cs.maskMode || \"match-source\",\n        // Computed mask lengths are exposed before effective zoom, while the\n        // captured positioning rect is already in painted coordinates. Cross\n        // that boundary once; percentages stay unresolved until Blink's\n        // contain/cover tile has established the free space (DM-2379).\n        maskSize: physicalComputedTileSize(cs.maskSize || cs.webkitMaskSize || \"auto\", _effectiveZoomFor(el)),\n        maskPosition: physicalComputedTileSize(cs.maskPosition || cs.webkitMaskPosition || \"0% 0%\", _effectiveZoomFor(el)),\n        maskRepeat: cs.maskRepeat || cs.webkitMaskRepeat || \"repeat\",\n        maskComposite: cs.maskComposite || cs.webkitMaskComposite || \"add\",\n        maskIntrinsic: computeMaskIntrinsic(el, cs),\n        maskOrigin: cs.maskOrigin || cs.webkitMaskOrigin || \"border-box\",\n        maskClip: cs.maskClip || cs.webkitMaskClip || \"border-box\",\n        // DM-2472: BackgroundImageGeometry contracts the HTML border box by\n        // mask-origin independently from mask-clip. Computed padding/borders\n        // are pre-zoom CSS px while `rect` is already physical, so cross the\n        // effective-zoom boundary once at capture time.\n        maskBoxInsets: (function() {\n          var _maskImage = cs.maskImage || cs.webkitMaskImage || \"\";\n          if (_maskImage === \"\" || _maskImage === \"none\") return void 0;\n          var _zoom = _effectiveZoomFor(el);\n          var _physical = function(value) {\n            var _number = parseFloat(value || \"0\");\n            return Number.isFinite(_number) ? _number * _zoom : 0;\n          };\n          return {\n            border: {\n              top: _physical(cs.borderTopWidth),\n              right: _physical(cs.borderRightWidth),\n              bottom: _physical(cs.borderBottomWidth),\n              left: _physical(cs.borderLeftWidth)\n            },\n            padding: {\n              top: _physical(cs.paddingTop),\n              right: _physical(cs.paddingRight),\n              bottom: _physical(cs.paddingBottom),\n              left: _physical(cs.paddingLeft)\n            }\n          };\n        })(),\n        // DM-758: `mask-border-source` / legacy `-webkit-mask-box-image`. Chrome\n        // exposes only the legacy webkit name; modern `maskBorderSource`\n        // returns undefined. Capture source + slice / width / outset so the\n        // renderer can decide whether to route through the simplified\n        // full-element mask path (only safe when width / outset both `0`).\n        maskBorderSource: cs.webkitMaskBoxImageSource && cs.webkitMaskBoxImageSource !== \"none\" ? cs.webkitMaskBoxImageSource : void 0,\n        maskBorderSlice: cs.webkitMaskBoxImageSlice || void 0,\n        maskBorderWidth: cs.webkitMaskBoxImageWidth || void 0,\n        maskBorderOutset: cs.webkitMaskBoxImageOutset || void 0,\n        // DM-793: legacy `-webkit-mask-box-image-repeat` keyword (stretch /\n        // repeat / round / space) per axis. Mirrors `border-image-repeat`.\n        maskBorderRepeat: cs.webkitMaskBoxImageRepeat || void 0,\n        // DM-793: intrinsic dimensions of the mask-border-source raster /\n        // SVG asset. Same probe pattern as `borderImageIntrinsic*` — a\n        // detached `<img>` resolves the URL against the document base and\n        // reports `naturalWidth` / `naturalHeight` for raster sources and\n        // the `<svg width/height>` attributes (or viewBox-derived size) for\n        // SVG sources. Captured at capture time so the renderer can compute\n        // 9-slice source rects without re-fetching the asset.\n        maskBorderIntrinsicWidth: (function() {\n          var _url = extractCssUrl(cs.webkitMaskBoxImageSource || \"\");\n          if (_url == null) return void 0;\n          var _img = new Image();\n          _img.src = _url;\n          return _img.naturalWidth || void 0;\n        })(),\n        maskBorderIntrinsicHeight: (function() {\n          var _url = extractCssUrl(cs.webkitMaskBoxImageSource || \"\");\n          if (_url == null) return void 0;\n          var _img = new Image();\n          _img.src = _url;\n          return _img.naturalHeight || void 0;\n        })(),\n        listStyleType: cs.listStyleType,\n        listStyleImage: cs.listStyleImage,\n        display: cs.display,\n        listStylePosition: cs.listStylePosition,\n        paddingTop: cs.paddingTop,\n        paddingRight: cs.paddingRight,\n        paddingBottom: cs.paddingBottom,\n        paddingLeft: cs.paddingLeft,\n        marginTop: cs.marginTop,\n        marginRight: cs.marginRight,\n        marginBottom: cs.marginBottom,\n        marginLeft: cs.marginLeft,\n        zIndex: cs.zIndex,\n        position: cs.position,\n        float: cs.float,\n        // DM-1742: `pointer-events: none` makes an element transparent to\n        // cursor hit-testing (the auto cursor-overlay glyph picker). Captured\n        // only when `none` — the property inherits, so descendants report it\n        // themselves; every other value hit-tests normally.\n        pointerEvents: cs.pointerEvents === \"none\" ? \"none\" : void 0,\n        order: cs.order,\n        flexDirection: cs.flexDirection,\n        emptyCellsHidden: isTableCellHiddenByEmptyCells(el, cs, tag),\n        // Form-control fields — input / progress / meter / select / details\n        // + ::-webkit-* pseudos for slider track/thumb, color swatch, number\n        // spin button, search cancel, file-selector button. See\n        // walker/form-controls.ts. Input value-capture-as-text and color-\n        // input border tinting deliberately stay inline (entangled with\n        // text-shaping and border-color emission respectively).\n        ...captureFormControls(el, cs, tag),\n        ..._fileSelectorCapture,\n        // ComputedStyle::EffectiveAppearance after Blink's author-style\n        // adjustment. This is distinct from the computed `appearance`\n        // longhand and lets later decoration ownership split at the exact\n        // menulist-button boundary (DM-2455).\n        effectiveAppearance: _effectiveAppearance || void 0,\n        textShadow: cs.textShadow,\n        ...threadFrozenTransform(cs, frozenTransform, frozenTransformOrigin),\n        transformRelatedBox: _transformRelatedBox.get(el),\n        // CSS Transforms 2 §4: `transform-style` != `flat` (i.e. `preserve-3d`)\n        // creates a stacking context. Captured so the renderer's SC detection\n        // sees it; otherwise z-index:-1 descendants hoist past their intended\n        // SC and end up behind the wrong background (DM-589).\n        transformStyle: cs.transformStyle,\n        // DM-2385: keep perspective as its own computed ancestor signal. It\n        // creates stacking/fixed-CB ownership without appearing in a child's\n        // computed transform matrix; perspective-origin is the resolved\n        // border-box point and is inert when perspective computes to none.\n        perspective: cs.perspective,\n        perspectiveOrigin: cs.perspectiveOrigin,\n        backfaceVisibility: cs.backfaceVisibility,\n        webkitBoxReflect: cs.webkitBoxReflect,\n        willChange: cs.willChange,\n        contain: cs.contain,\n        isolation: cs.isolation,\n        writingMode: cs.writingMode,\n        textOrientation: cs.textOrientation,\n        // CSS resize: 'none' / 'both' / 'vertical' / 'horizontal' / 'block' /\n        // 'inline'. When non-none on a <textarea> Chrome paints a small\n        // diagonal-line resize handle in the bottom-right corner. (DM-339)\n        resize: cs.resize,\n        textOverflow: cs.textOverflow,\n        whiteSpace: cs.whiteSpace,\n        textTransform: cs.textTransform,\n        color: normColor(cs.color),\n        // DM-2470: font metrics live in Blink's pre-transform plane. Effective\n        // CSS zoom is layout-local and is crossed here exactly once; the later\n        // signed CSS transform is carried solely by textPaintGeometry.\n        fontSize: (function() {\n          var _fs = parseFloat(cs.fontSize);\n          if (!isFinite(_fs)) return cs.fontSize;\n          return (_fs * _effectiveZoomFor(el)).toFixed(4) + \"px\";\n        })(),\n        fontLogicalSize: cs.fontSize,\n        fontComputedSize: (function() {\n          var _fs = parseFloat(cs.fontSize);\n          if (!isFinite(_fs)) return cs.fontSize;\n          return (_fs * _effectiveZoomFor(el)).toFixed(4) + \"px\";\n        })(),\n        // DM-2051: an element with NO author-declared font-family is a Blink\n        // kStandardFamily description, which resolves to the SCRIPT-KEYED\n        // `settings.Standard(script)` — so `lang=ja` with no declared family\n        // paints the Japanese standard face for the whole run, though the\n        // computed string serializes to the concrete standard name (\"Times\").\n        // Rewrite that case to the `-webkit-standard` generic keyword, which is\n        // exactly what kStandardFamily maps to; the renderer's\n        // `matchFamilyNameToKey(\"-webkit-standard\", true, lang)` then routes it\n        // script-keyed. A declared `font-family: Times` (identical computed\n        // string, but Latin→Times / CJK→fallback) is left untouched.\n        fontFamily: _familyIsUADefault(el, cs.fontFamily) ? \"-webkit-standard\" : cs.fontFamily,\n        fontWeight: cs.fontWeight,\n        fontStyle: cs.fontStyle,\n        opacity: cs.opacity,\n        lineHeight: cs.lineHeight,\n        letterSpacing: cs.letterSpacing,\n        fontKerning: cs.fontKerning,\n        fontStretch: cs.fontStretch,\n        fontVariationSettings: cs.fontVariationSettings,\n        fontOpticalSizing: cs.fontOpticalSizing,\n        fontFeatureSettings: cs.fontFeatureSettings,\n        fontVariantAlternates: cs.fontVariantAlternates,\n        // The alias table is document-global but only alternate-bearing nodes\n        // can consume it; omit it from the common element shape to avoid\n        // repeating author rule data throughout the serialized tree.\n        fontFeatureValues: cs.fontVariantAlternates && cs.fontVariantAlternates !== \"normal\" ? _fontFeatureValuesFor(el.ownerDocument) : void 0,\n        // CSS font-variant-caps. 'small-caps' / 'all-small-caps' route to\n        // the OpenType smcp feature; renderer applies synthesized small-caps\n        // when the active font lacks smcp (Helvetica, Times, etc.). DM-361.\n        fontVariantCaps: cs.fontVariantCaps,\n        // CSS font-variant-east-asian / -numeric / -ligatures. Each maps to a\n        // set of OpenType feature tags (e.g. `traditional` → `trad`, `jis78` →\n        // `jp78`, `oldstyle-nums` → `onum`) that the path renderer forwards to\n        // fontkit shaping. Without these, e.g. `font-variant-east-asian:\n        // traditional` paints the simplified/JP default glyph (国) instead of\n        // the traditional form (國). DM-1117.\n        fontVariantEastAsian: cs.fontVariantEastAsian,\n        fontVariantNumeric: cs.fontVariantNumeric,\n        fontVariantLigatures: cs.fontVariantLigatures,\n        // CSS font-variant-position — maps to the OpenType subs/sups\n        // features (`font_features.cc:230-239`, rev 7d859f27). DM-2048.\n        fontVariantPosition: cs.fontVariantPosition,\n        // CSS font-synthesis-{weight,style,small-caps} — `auto` or `none`. Not a\n        // hint: Blink ANDs each into the corresponding synthesis decision, so\n        // `none` means Chrome paints the thin/upright/lowercase face where we\n        // would otherwise embolden, shear, or scale. DM-1971.\n        // CSS text-rendering — `optimizeSpeed` disables the normal-state\n        // ligature features at shaping time, the same way a non-zero\n        // letter-spacing does. DM-1963.\n        textRendering: cs.textRendering,\n        fontSynthesisWeight: cs.fontSynthesisWeight,\n        fontSynthesisStyle: cs.fontSynthesisStyle,\n        fontSynthesisSmallCaps: cs.fontSynthesisSmallCaps,\n        // CSS font-variant-emoji — a genuine face-selection input (it overrides\n        // the run's emoji-vs-text fallback priority and forces VS15/VS16 into\n        // the glyph lookups). The renderer threads it into the per-codepoint\n        // resolver and the raster-emoji overlay routing.\n        fontVariantEmoji: cs.fontVariantEmoji,\n        direction: cs.direction,\n        // `unicode-bidi` decides whether the characters' OWN bidi types are\n        // honored or overridden. `bidi-override` / `isolate-override` tell the\n        // UBA to treat every character as strong in `direction`, which is the\n        // one case the renderer cannot reconstruct from the text: it derives\n        // levels by running the algorithm on the characters, and the override\n        // is precisely an instruction to ignore what the characters say.\n        unicodeBidi: cs.unicodeBidi,\n        // Computed BCP-47 language tag from el.lang or nearest ancestor\n        // [lang], falling back to document.documentElement.lang. Used by the\n        // path renderer to route CJK Han fallback to the right PingFang\n        // regional variant. (DM-394)\n        lang: (function() {\n          var n = el;\n          while (n != null && n.nodeType === 1) {\n            if (n.lang) return n.lang;\n            n = n.parentElement;\n          }\n          return document.documentElement.lang || \"\";\n        })(),\n        textDecorationLine: cs.textDecorationLine,\n        textDecorationColor: cs.textDecorationColor,\n        textDecorationStyle: cs.textDecorationStyle,\n        textDecorationThickness: cs.textDecorationThickness,\n        textUnderlineOffset: cs.textUnderlineOffset,\n        textUnderlinePosition: cs.textUnderlinePosition,\n        textDecorationSkipInk: cs.textDecorationSkipInk,\n        // DM-920: text-emphasis. Captured per CSS Text Decoration 3 §3.5.\n        // `text-emphasis-style` resolved string (\"filled circle\" / \"open\n        // sesame\" / `\"★\"` etc.) maps to a single mark character in the\n        // renderer per Chromium's `ComputedStyle::TextEmphasisMarkString`\n        // (third_party/blink/renderer/core/style/computed_style.cc:\n        // kBullet U+2022 / kWhiteBullet U+25E6 / kBlackCircle U+25CF /\n        // kWhiteCircle U+25CB / kFisheye U+25C9 / kBullseye U+25CE /\n        // kBlackUpPointingTriangle U+25B2 / kWhiteUpPointingTriangle\n        // U+25B3 / kSesameDot U+FE45 / kWhiteSesameDot U+FE46).\n        textEmphasisStyle: cs.textEmphasisStyle,\n        textEmphasisColor: cs.textEmphasisColor,\n        textEmphasisPosition: cs.textEmphasisPosition\n      },\n      projectiveTransform,\n      projectiveHidden,\n      transformSubtreeRaster,\n      children,\n      imageSrc,\n      imageIntrinsic,\n      imageBroken,\n      imageAlt,\n      brokenImageFallback,\n      svgContent,\n      pseudoFragments: Array.isArray(_pseudoFragmentFacts) ? _pseudoFragmentFacts : void 0,\n      pseudoImages,\n      pseudoBoxes: pseudoBoxes.length > 0 ? pseudoBoxes : void 0,\n      // SK-1115: ::marker pseudo styles plus list-marker intrinsic dims and\n      // list-item index — see walker/lists-counters.ts.\n      ..._listsCounters,\n      textSegments: textSegments.length > 0 ? textSegments : void 0,\n      textPaintGeometry: _textPaintFact != null ? _textPaintFact.geometry : void 0,\n      // Correlation marker emitted only by the all-transform-neutral probe\n      // capture and consumed before that intermediate tree is discarded.\n      _textPaintSourceKey: args.tgp === true ? _textPaintSourceKeyFor(el) : void 0,\n      lineClampTextFragments: lineClampTextFragments || void 0,\n      textTop,\n      textLeft,\n      textHeight,\n      textWidth,\n      // DM-2446: Blink chooses and measures the face at computed size\n      // (logical CSS size × effective zoom), then the transform stage scales\n      // those metrics into paint space. Re-measure at computed size instead of\n      // multiplying logical-size metrics by zoom: variable-font metrics can\n      // change non-linearly when the computed size selects another instance.\n      fontAscent: (function() {\n        if (fontAscent == null) return fontAscent;\n        var _logical = parseFloat(cs.fontSize);\n        var _zoom = _effectiveZoomFor(el);\n        var _computed = _logical * _zoom;\n        if (!isFinite(_computed) || _zoom === 0) return fontAscent;\n        if (fontAscent !== _measureFontMetrics(cs).ascent) return fontAscent;\n        return _measureFontMetrics(cs, _computed.toFixed(4) + \"px\").ascent;\n      })(),\n      fontDescent: (function() {\n        if (fontDescent == null) return fontDescent;\n        var _logical = parseFloat(cs.fontSize);\n        var _zoom = _effectiveZoomFor(el);\n        var _computed = _logical * _zoom;\n        if (!isFinite(_computed) || _zoom === 0) return fontDescent;\n        if (fontDescent !== _measureFontMetrics(cs).descent) return fontDescent;\n        return _measureFontMetrics(cs, _computed.toFixed(4) + \"px\").descent;\n      })(),\n      inputXOffsets,\n      textImageUri,\n      textImageScale,\n      // Placeholder metadata (SK-1097 / SK-1100 / SK-1099): captured in\n      // walker/input-value.ts when the host is a placeholder-shown input\n      // or textarea. Undefined elsewhere.\n      isPlaceholderText: isPlaceholderCapture || void 0,\n      placeholderColor,\n      placeholderFontStyle,\n      placeholderFontWeight,\n      // Old-capture compatibility field. Current textarea and vertical text\n      // capture is fully vector; see walker/text-segments.ts.\n      elementRaster: computeElementRaster(el, cs, tag, rect, vp),\n      // DM-2149 / DM-2453: snapshot only appearances for which Blink's\n      // ThemePainter owns the complete host. EffectiveAppearance is derived\n      // above from the actual auto mapping and cascade-origin author flags.\n      // menulist-button/listbox/base states keep their author-owned host box\n      // structural; native decoration splitting is owned by DM-2455.\n      nativeControlRaster: (function() {\n        if (!_nativeControlTag || rect.width <= 0 || rect.height <= 0) return void 0;\n        if (_effectiveAppearance != null && !isWholeHostNativeAppearance(_effectiveAppearance)) return void 0;\n        const outlineWidth = parseFloat(cs.outlineWidth) || 0;\n        const outlineOffset = parseFloat(cs.outlineOffset) || 0;\n        const expand = cs.outlineStyle !== \"none\" && cs.outlineStyle !== \"hidden\" ? Math.max(0, outlineWidth + outlineOffset) : 0;\n        const paintOverflow = 1;\n        const rasterExpand = expand + paintOverflow;\n        return {\n          x: rect.left - vp.x - rasterExpand,\n          y: rect.top - vp.y - rasterExpand,\n          width: rect.width + rasterExpand * 2,\n          height: rect.height + rasterExpand * 2,\n          // Private capture-to-live-DOM correlation. The Node post-pass uses\n          // the pre-existing source registry, so no marker attribute can\n          // activate author CSS before the isolated Chromium screenshot.\n          sourceNodeIndex: _projectiveNodeIndex.get(el),\n          selector: sel2,\n          // LayoutProgress::IsDeterminate feeds ThemePainterDefault's native\n          // progress parameters. Only the missing-value state advances its\n          // platform paint independently of author animation timelines.\n          frameSensitive: tag === \"progress\" && !el.hasAttribute(\"value\") || void 0\n        };\n      })(),\n      // A CSS-owned host can still contain either ThemePainter's select arrow\n      // or layout-backed closed-UA-shadow decorations. Keep the host box and\n      // value text structural, but reserve this narrow overlay so a failed\n      // Chromium isolation can never reopen the sampled glyph functions.\n      nativeControlDecorationRaster: (function() {\n        if (_nativeDecorationKinds.length === 0 || rect.width <= 0 || rect.height <= 0) return void 0;\n        const rasterExpand = 1;\n        const _fileButtonPart = _nativeDecorationKinds.indexOf(\"file-selector-button\") >= 0 ? _nativeDecorationParts.find((_part) => _part.kind === \"file-selector-button\") : void 0;\n        const base = _fileButtonPart != null ? {\n          x: _fileButtonPart.x - vp.x,\n          y: _fileButtonPart.y - vp.y,\n          width: _fileButtonPart.width,\n          height: _fileButtonPart.height,\n          kinds: _nativeDecorationKinds,\n          exactPartBox: true\n        } : {\n          x: rect.left - vp.x - rasterExpand,\n          y: rect.top - vp.y - rasterExpand,\n          width: rect.width + rasterExpand * 2,\n          height: rect.height + rasterExpand * 2,\n          kinds: _nativeDecorationKinds\n        };\n        if (_nativeDecorationUnavailableReason != null) {\n          return Object.assign(base, {\n            unavailableReason: _nativeDecorationUnavailableReason,\n            selector: sel2\n          });\n        }\n        if (_missingNativeDecorationKinds.length > 0) {\n          return Object.assign(base, {\n            unavailableReason: \"pierced UA-shadow node missing: \" + _missingNativeDecorationKinds.join(\", \"),\n            selector: sel2\n          });\n        }\n        const selectArrow = _nativeDecorationKinds.indexOf(\"menulist-button-arrow\") >= 0;\n        if (!selectArrow && _nativeDecorationParts.length === 0) {\n          return Object.assign(base, { empty: true });\n        }\n        return Object.assign(base, {\n          sourceNodeIndex: _projectiveNodeIndex.get(el),\n          selector: sel2,\n          selectArrow: selectArrow || void 0,\n          parts: _nativeDecorationParts.length > 0 ? _nativeDecorationParts : void 0\n        });\n      })(),\n      // DM-2171: backdrop-filter samples already-painted content behind this\n      // element through a distinct Blink effect node. An img-rendered SVG has\n      // no equivalent input surface, so preserve Chromium's composited pixels\n      // for the complete isolation subtree at its paint-order position.\n      backdropFilterRaster: (function() {\n        const value = cs.backdropFilter || cs.webkitBackdropFilter || \"\";\n        if (value === \"\" || value === \"none\" || rect.width <= 0 || rect.height <= 0) return void 0;\n        const token = \"bf\" + _backdropRasterSeq++;\n        el.setAttribute(\"data-domotion-backdrop-raster\", token);\n        return { x: rect.left - vp.x, y: rect.top - vp.y, width: rect.width, height: rect.height, token };\n      })(),\n      // DM-2415: a CSS URL filter containing feConvolveMatrix needs Blink's\n      // original layer-space SourceGraphic pixels. The Node post-pass replaces\n      // this placeholder with the isolated, fully-filtered Chromium surface.\n      urlFilterRaster: urlFilterRasterToken == null ? void 0 : {\n        x: rect.left - vp.x,\n        y: rect.top - vp.y,\n        width: rect.width,\n        height: rect.height,\n        token: urlFilterRasterToken\n      }\n    };\n    detectInlineFragments(el, cs, vp, _captured);\n    if (bordersOnlyCell) {\n      _captured.text = \"\";\n      _captured.children = [];\n      _captured.styles.backgroundColor = \"rgba(0, 0, 0, 0)\";\n      _captured.styles.backgroundImage = void 0;\n      _captured.textSegments = void 0;\n      _captured.imageSrc = void 0;\n      _captured.svgContent = void 0;\n      _captured.pseudoImages = void 0;\n      _captured.elementRaster = void 0;\n    }\n    if (tag === \"iframe\" && !bordersOnlyCell) {\n      var _iframeNode = _captureIframeRecursion(el, cs, rect);\n      if (_iframeNode != null) {\n        _captured.children = [_iframeNode];\n        _captured._iframeRecursed = true;\n        _captured.styles.overflowX = \"hidden\";\n        _captured.styles.overflowY = \"hidden\";\n      }\n    }\n    handleReplacedElement(el, cs, tag, rect, _captured, bordersOnlyCell);\n    delete _captured._iframeRecursed;\n    if (!bordersOnlyCell) {\n      var _smg = _captureScrollMarkerGroup(el, cs, rect);\n      if (_smg) {\n        _captured.scrollMarkerGroup = _smg.node;\n        _captured._scrollMarkerGroupBefore = _smg.before;\n      }\n      var _sbtns = _captureScrollButtons(el, cs, rect);\n      if (_sbtns) _captured.scrollButtons = _sbtns;\n    }\n    return _captured;\n  };\n  function _captureScrollMarkerGroup(el, cs, rect) {\n    var smg = cs.scrollMarkerGroup != null && cs.scrollMarkerGroup !== \"\" ? cs.scrollMarkerGroup : cs.getPropertyValue ? cs.getPropertyValue(\"scroll-marker-group\") : \"\";\n    if (!smg || smg.indexOf(\"none\") === 0) return void 0;\n    var position = smg.indexOf(\"before\") === 0 ? \"before\" : smg.indexOf(\"after\") === 0 ? \"after\" : null;\n    if (!position) return void 0;\n    var items = [];\n    for (var i = 0; i < el.children.length; i++) {\n      var child = el.children[i];\n      var mcs = window.getComputedStyle(child, \"::scroll-marker\");\n      var content = mcs.content;\n      if (!content || content === \"none\" || content === \"normal\") continue;\n      items.push({ mcs, content });\n    }\n    if (items.length === 0) return void 0;\n    var gcs = window.getComputedStyle(el, \"::scroll-marker-group\");\n    var doc = el.ownerDocument;\n    var container = doc.createElement(\"div\");\n    var groupWidth = rect.width;\n    container.style.boxSizing = \"border-box\";\n    container.style.position = \"absolute\";\n    container.style.margin = \"0\";\n    container.style.display = gcs.display && gcs.display !== \"inline\" ? gcs.display : \"flex\";\n    container.style.justifyContent = gcs.justifyContent || \"center\";\n    container.style.alignItems = \"flex-start\";\n    container.style.gap = \"0\";\n    container.style.padding = gcs.padding || \"0\";\n    container.style.background = gcs.backgroundColor || \"transparent\";\n    container.style.borderRadius = gcs.borderRadius || \"0\";\n    container.style.width = groupWidth + \"px\";\n    container.style.left = \"-99999px\";\n    container.style.top = \"0px\";\n    for (var j = 0; j < items.length; j++) {\n      var mc = items[j].mcs;\n      var m = doc.createElement(\"div\");\n      var txt = items[j].content;\n      if (txt === '\"\"' || txt === \"''\") txt = \"\";\n      else if (txt.length >= 2 && (txt[0] === '\"' && txt[txt.length - 1] === '\"' || txt[0] === \"'\" && txt[txt.length - 1] === \"'\")) txt = txt.slice(1, -1);\n      else txt = \"\";\n      m.textContent = txt;\n      m.style.boxSizing = mc.boxSizing || \"content-box\";\n      m.style.flex = \"0 0 auto\";\n      if (txt === \"\") {\n        m.style.width = mc.width;\n        m.style.height = mc.height;\n      }\n      m.style.borderRadius = mc.borderRadius;\n      m.style.background = mc.backgroundColor;\n      m.style.color = mc.color;\n      m.style.marginTop = mc.marginTop || \"0\";\n      m.style.marginBottom = mc.marginBottom || \"0\";\n      m.style.marginLeft = mc.marginLeft || \"0\";\n      m.style.marginRight = mc.marginRight || \"0\";\n      m.style.paddingTop = mc.paddingTop;\n      m.style.paddingBottom = mc.paddingBottom;\n      m.style.paddingLeft = \"0\";\n      m.style.paddingRight = \"0\";\n      m.style.fontSize = mc.fontSize;\n      m.style.fontWeight = mc.fontWeight;\n      m.style.fontFamily = mc.fontFamily;\n      m.style.lineHeight = mc.lineHeight;\n      m.style.display = mc.display && mc.display !== \"inline\" ? mc.display : \"inline-block\";\n      if (mc.transform && mc.transform !== \"none\") m.style.transform = mc.transform;\n      if (mc.transformOrigin) m.style.transformOrigin = mc.transformOrigin;\n      var bw = parseFloat(mc.borderTopWidth || \"0\") || 0;\n      if (bw > 0) {\n        m.style.borderStyle = mc.borderTopStyle;\n        m.style.borderWidth = mc.borderTopWidth;\n        m.style.borderColor = mc.borderTopColor;\n      }\n      container.appendChild(m);\n    }\n    var padTop = parseFloat(gcs.paddingTop || \"0\") || 0;\n    var padBottom = parseFloat(gcs.paddingBottom || \"0\") || 0;\n    var groupBoxH = padTop + padBottom;\n    container.style.height = groupBoxH + \"px\";\n    container.style.overflow = \"visible\";\n    doc.body.appendChild(container);\n    var targetTop = position === \"after\" ? rect.bottom : rect.top - groupBoxH;\n    container.style.left = rect.left + window.scrollX + \"px\";\n    container.style.top = targetTop + window.scrollY + \"px\";\n    var node = capture(container);\n    doc.body.removeChild(container);\n    if (!node) return void 0;\n    return { node, before: position === \"before\" };\n  }\n  function _scrollButtonAuthorRules(el) {\n    var sides = {};\n    var disabled = {};\n    var star = {};\n    var sheets = el.ownerDocument.styleSheets;\n    for (var s = 0; s < sheets.length; s++) {\n      var rules;\n      try {\n        rules = sheets[s].cssRules;\n      } catch (e) {\n        continue;\n      }\n      if (!rules) continue;\n      for (var r = 0; r < rules.length; r++) {\n        var rule = rules[r];\n        var sel2 = rule.selectorText;\n        if (!sel2) continue;\n        var at = sel2.indexOf(\"::scroll-button(\");\n        if (at < 0) continue;\n        var close = sel2.indexOf(\")\", at);\n        if (close < 0) continue;\n        var dir = sel2.slice(at + 16, close).trim();\n        var base = sel2.slice(0, at).trim();\n        var matches = false;\n        try {\n          matches = base === \"\" || el.matches(base);\n        } catch (e) {\n          matches = false;\n        }\n        if (!matches) continue;\n        var isDisabled = sel2.slice(close + 1).indexOf(\":disabled\") >= 0;\n        var bucket = isDisabled ? disabled : dir === \"*\" ? star : sides[dir] || (sides[dir] = {});\n        var decl = rule.style;\n        for (var d = 0; d < decl.length; d++) bucket[decl[d]] = decl.getPropertyValue(decl[d]);\n      }\n    }\n    for (var k in sides) {\n      if (!Object.prototype.hasOwnProperty.call(sides, k)) continue;\n      var merged = {};\n      for (var sp in star) if (Object.prototype.hasOwnProperty.call(star, sp)) merged[sp] = star[sp];\n      for (var op in sides[k]) if (Object.prototype.hasOwnProperty.call(sides[k], op)) merged[op] = sides[k][op];\n      sides[k] = merged;\n    }\n    return { sides, disabled };\n  }\n  function _captureScrollButtons(el, cs, rect) {\n    var probe = window.getComputedStyle(el, \"::scroll-button(left)\").content;\n    if (!probe || probe === \"none\" || probe === \"normal\") {\n      probe = window.getComputedStyle(el, \"::scroll-button(right)\").content;\n      if (!probe || probe === \"none\" || probe === \"normal\") return void 0;\n    }\n    var rules = _scrollButtonAuthorRules(el);\n    var doc = el.ownerDocument;\n    var maxX = el.scrollWidth - el.clientWidth;\n    var maxY = el.scrollHeight - el.clientHeight;\n    var nodes = [];\n    for (var dir in rules.sides) {\n      if (!Object.prototype.hasOwnProperty.call(rules.sides, dir)) continue;\n      var decls = rules.sides[dir];\n      var isDisabled = false;\n      if (dir === \"left\" || dir === \"inline-start\") isDisabled = el.scrollLeft <= 0;\n      else if (dir === \"right\" || dir === \"inline-end\") isDisabled = el.scrollLeft >= maxX - 1;\n      else if (dir === \"up\" || dir === \"block-start\") isDisabled = el.scrollTop <= 0;\n      else if (dir === \"down\" || dir === \"block-end\") isDisabled = el.scrollTop >= maxY - 1;\n      var btn = doc.createElement(\"div\");\n      var content = \"\";\n      for (var p in decls) {\n        if (!Object.prototype.hasOwnProperty.call(decls, p)) continue;\n        if (p === \"content\") {\n          content = decls[p];\n          continue;\n        }\n        try {\n          btn.style.setProperty(p, decls[p]);\n        } catch (e) {\n        }\n      }\n      if (isDisabled) {\n        for (var dp in rules.disabled) {\n          if (!Object.prototype.hasOwnProperty.call(rules.disabled, dp)) continue;\n          try {\n            btn.style.setProperty(dp, rules.disabled[dp]);\n          } catch (e) {\n          }\n        }\n      }\n      if (!btn.style.position || btn.style.position === \"static\") btn.style.position = \"absolute\";\n      btn.style.margin = \"0\";\n      var txt = \"\";\n      if (content.length >= 2 && (content[0] === '\"' && content[content.length - 1] === '\"' || content[0] === \"'\" && content[content.length - 1] === \"'\")) {\n        txt = content.slice(1, -1);\n      }\n      btn.textContent = txt;\n      doc.body.appendChild(btn);\n      var node = capture(btn);\n      doc.body.removeChild(btn);\n      if (node) nodes.push(node);\n    }\n    return nodes.length ? nodes : void 0;\n  }\n  function _frameIsCrossOrigin(el) {\n    try {\n      var w = el.contentWindow;\n      if (w == null) return true;\n      var o = w.location && w.location.origin;\n      if (o == null || o === \"\" || o === \"null\") return false;\n      return o !== location.origin;\n    } catch (e) {\n      return true;\n    }\n  }\n  function _crossOriginFrameAllowed(el) {\n    if (_crossOriginAllow == null) return false;\n    var url;\n    try {\n      url = el.contentWindow && el.contentWindow.location ? el.contentWindow.location.href : el.src;\n    } catch (e) {\n      url = el.src;\n    }\n    return frameHostAllowed(url || \"\", _crossOriginAllow);\n  }\n  function _iframeIsRecursable(el) {\n    if (el.tagName == null || el.tagName.toLowerCase() !== \"iframe\") return null;\n    var doc;\n    try {\n      doc = el.contentDocument;\n    } catch (e) {\n      return null;\n    }\n    if (doc == null || doc.body == null || doc.documentElement == null) return null;\n    if (_frameIsCrossOrigin(el) && !_crossOriginFrameAllowed(el)) return null;\n    return doc;\n  }\n  function _captureIframeRecursion(el, cs, rect) {\n    var doc = _iframeIsRecursable(el);\n    if (doc == null) return void 0;\n    var bsw = sideWidths(cs, \"border\", \"Width\");\n    var dx = rect.left + bsw.left + (parseFloat(cs.paddingLeft) || 0);\n    var dy = rect.top + bsw.top + (parseFloat(cs.paddingTop) || 0);\n    var savedX = vp.x, savedY = vp.y;\n    vp.x = savedX - dx;\n    vp.y = savedY - dy;\n    var node;\n    try {\n      _runInnerDocumentPrePasses(doc);\n      node = capture(doc.documentElement);\n    } catch (e) {\n      node = void 0;\n    } finally {\n      vp.x = savedX;\n      vp.y = savedY;\n    }\n    if (node == null) return void 0;\n    var canvasColor = _resolveIframeCanvasColor(doc);\n    if (canvasColor != null) {\n      node.styles.backgroundColor = canvasColor;\n      var vpW = doc.documentElement.clientWidth || node.width;\n      var vpH = doc.documentElement.clientHeight || node.height;\n      if (node.width < vpW) node.width = vpW;\n      if (node.height < vpH) node.height = vpH;\n    }\n    return node;\n  }\n  function _isOpaqueColor(c) {\n    return c != null && c !== \"\" && c !== \"transparent\" && !/,\\s*0\\s*\\)\\s*$/.test(c);\n  }\n  function _resolveIframeCanvasColor(doc) {\n    var htmlBg = getComputedStyle(doc.documentElement).backgroundColor;\n    if (_isOpaqueColor(htmlBg)) return normColor(htmlBg);\n    var bodyBg = doc.body != null ? getComputedStyle(doc.body).backgroundColor : null;\n    if (_isOpaqueColor(bodyBg)) return normColor(bodyBg);\n    return null;\n  }\n  function _runInnerDocumentPrePasses(doc) {\n    var rootEl = doc.documentElement;\n    var allEls = rootEl.getElementsByTagName(\"*\");\n    for (var i = 0; i < allEls.length; i++) {\n      var el = allEls[i];\n      var pos = getComputedStyle(el).position;\n      if (pos !== \"fixed\" && pos !== \"sticky\") continue;\n      var r = el.getBoundingClientRect();\n      if (r.right < vp.x || r.bottom < vp.y || r.left > vp.x + vp.width || r.top > vp.y + vp.height) continue;\n      var cur = el.parentElement;\n      while (cur != null && cur !== rootEl.parentElement) {\n        if (_fixedAncestors.has(cur)) break;\n        _fixedAncestors.add(cur);\n        cur = cur.parentElement;\n      }\n    }\n    for (var t = 0; t < allEls.length; t++) {\n      var tel = allEls[t];\n      var tt = getComputedStyle(tel).transform;\n      if (tt === \"none\" || tt === \"\") continue;\n      _transformInfluenced.add(tel);\n      var tdescs = tel.getElementsByTagName(\"*\");\n      for (var td = 0; td < tdescs.length; td++) _transformInfluenced.add(tdescs[td]);\n    }\n    _counterPreWalk(rootEl);\n    _runCounterStylePrewalk(doc);\n  }\n  const root = document.querySelector(sel);\n  if (!root) return { tree: [], warnings: [] };\n  const _fixedAncestors = /* @__PURE__ */ new Set();\n  const _allEls = root.getElementsByTagName(\"*\");\n  for (let _i = 0; _i < _allEls.length; _i++) {\n    const _el = _allEls[_i];\n    const _pos = getComputedStyle(_el).position;\n    if (_pos !== \"fixed\" && _pos !== \"sticky\") continue;\n    const _r = _el.getBoundingClientRect();\n    const _outside = _r.right < vp.x || _r.bottom < vp.y || _r.left > vp.x + vp.width || _r.top > vp.y + vp.height;\n    if (_outside) continue;\n    let _cur = _el.parentElement;\n    while (_cur != null && _cur !== root.parentElement) {\n      if (_fixedAncestors.has(_cur)) break;\n      _fixedAncestors.add(_cur);\n      _cur = _cur.parentElement;\n    }\n  }\n  const _transformInfluenced = /* @__PURE__ */ new Set();\n  for (let _ti = 0; _ti < _allEls.length; _ti++) {\n    const _tel = _allEls[_ti];\n    const _tt = getComputedStyle(_tel).transform;\n    if (_tt === \"none\" || _tt === \"\") continue;\n    _transformInfluenced.add(_tel);\n    const _tdescs = _tel.getElementsByTagName(\"*\");\n    for (let _tj = 0; _tj < _tdescs.length; _tj++) {\n      _transformInfluenced.add(_tdescs[_tj]);\n    }\n  }\n  const _transformRelatedBox = /* @__PURE__ */ new WeakMap();\n  const _transformRelatedWillChange = /* @__PURE__ */ new Set([\n    \"transform\",\n    \"transform-style\",\n    \"perspective\",\n    \"translate\",\n    \"rotate\",\n    \"scale\",\n    \"offset-path\",\n    \"offset-position\"\n  ]);\n  const _hasTransformRelatedSignal = (_cs) => {\n    if (_cs.transform != null && _cs.transform !== \"\" && _cs.transform !== \"none\" || _cs.translate != null && _cs.translate !== \"\" && _cs.translate !== \"none\" || _cs.rotate != null && _cs.rotate !== \"\" && _cs.rotate !== \"none\" || _cs.scale != null && _cs.scale !== \"\" && _cs.scale !== \"none\" || _cs.transformStyle === \"preserve-3d\" || _cs.perspective != null && _cs.perspective !== \"\" && _cs.perspective !== \"none\") return true;\n    if (_cs.willChange == null || _cs.willChange === \"\" || _cs.willChange === \"auto\") return false;\n    const _tokens = _cs.willChange.split(/[\\s,]+/);\n    for (let _wi = 0; _wi < _tokens.length; _wi++) {\n      if (_transformRelatedWillChange.has(_tokens[_wi].toLowerCase())) return true;\n    }\n    return false;\n  };\n  const _ownershipEls = [root, ...Array.from(_allEls)];\n  let _ownershipAncestor = root.parentElement;\n  while (_ownershipAncestor != null) {\n    _ownershipEls.push(_ownershipAncestor);\n    _ownershipAncestor = _ownershipAncestor.parentElement;\n  }\n  const _probeUnsupportedTags = /^(?:AUDIO|CANVAS|EMBED|IFRAME|IMG|INPUT|METER|OBJECT|PROGRESS|SELECT|TEXTAREA|VIDEO)$/;\n  for (let _oi = 0; _oi < _ownershipEls.length; _oi++) {\n    const _owner = _ownershipEls[_oi];\n    const _ownerStyle = getComputedStyle(_owner);\n    if (!_hasTransformRelatedSignal(_ownerStyle)) continue;\n    if (_owner.namespaceURI === \"http://www.w3.org/2000/svg\" || _probeUnsupportedTags.test(_owner.tagName)) continue;\n    const _probeHost = document.createElement(\"span\");\n    _probeHost.setAttribute(\"aria-hidden\", \"true\");\n    _probeHost.style.setProperty(\"all\", \"initial\", \"important\");\n    _probeHost.style.setProperty(\"display\", _ownerStyle.display, \"important\");\n    _probeHost.style.setProperty(\"perspective\", \"1px\", \"important\");\n    _probeHost.style.setProperty(\"visibility\", \"hidden\", \"important\");\n    _probeHost.style.setProperty(\"width\", \"0\", \"important\");\n    _probeHost.style.setProperty(\"height\", \"0\", \"important\");\n    _probeHost.style.setProperty(\"margin\", \"0\", \"important\");\n    _probeHost.style.setProperty(\"padding\", \"0\", \"important\");\n    _probeHost.style.setProperty(\"border\", \"0\", \"important\");\n    const _probe = document.createElement(\"i\");\n    _probe.setAttribute(\"aria-hidden\", \"true\");\n    _probe.style.setProperty(\"all\", \"initial\", \"important\");\n    _probe.style.setProperty(\"position\", \"fixed\", \"important\");\n    _probe.style.setProperty(\"width\", \"0\", \"important\");\n    _probe.style.setProperty(\"height\", \"0\", \"important\");\n    _probeHost.appendChild(_probe);\n    try {\n      (document.body || document.documentElement).appendChild(_probeHost);\n      _transformRelatedBox.set(_owner, _probe.offsetParent === _probeHost);\n    } catch (_e) {\n    } finally {\n      _probeHost.remove();\n    }\n  }\n  const _projectiveFacts = Array.isArray(args.pq) ? args.pq : [];\n  const _projectiveDomNodes = typeof args.pqk === \"string\" && Array.isArray(globalThis[args.pqk]) ? globalThis[args.pqk] : [];\n  const _projectiveNodeIndex = /* @__PURE__ */ new WeakMap();\n  const _projectedQuads = /* @__PURE__ */ new WeakMap();\n  const _projectiveAbsH = /* @__PURE__ */ new WeakMap();\n  for (let _pi = 0; _pi < _projectiveFacts.length; _pi++) {\n    const _fact = _projectiveFacts[_pi];\n    const _pel = _projectiveDomNodes[_pi];\n    if (_pel == null || _fact == null) continue;\n    _projectiveNodeIndex.set(_pel, _pi);\n    if (_fact.role === \"svg-graphics\") continue;\n    const _values = _fact.borderQuad || _fact.quad;\n    if (!Array.isArray(_values) || _values.length !== 8) continue;\n    _projectedQuads.set(_pel, [\n      { x: _values[0], y: _values[1] },\n      { x: _values[2], y: _values[3] },\n      { x: _values[4], y: _values[5] },\n      { x: _values[6], y: _values[7] }\n    ]);\n  }\n  const _nonAffineProjectiveRoots = /* @__PURE__ */ new Set();\n  for (const _ownerIndex of selectProjectiveRasterOwnerIndexes(_projectiveFacts)) {\n    const _owner = _projectiveDomNodes[_ownerIndex];\n    if (_owner != null) _nonAffineProjectiveRoots.add(_owner);\n  }\n  const _invertH = (m) => {\n    const [a, b, c, d, e, f, g, h, i] = m;\n    const A = e * i - f * h, B = c * h - b * i, C = b * f - c * e;\n    const D = f * g - d * i, E = a * i - c * g, F = c * d - a * f;\n    const G = d * h - e * g, H = b * g - a * h, I = a * e - b * d;\n    const det = a * A + b * D + c * G;\n    if (!isFinite(det) || Math.abs(det) < 1e-12) return null;\n    return [A / det, B / det, C / det, D / det, E / det, F / det, G / det, H / det, I / det];\n  };\n  const _mulH = (a, b) => [\n    a[0] * b[0] + a[1] * b[3] + a[2] * b[6],\n    a[0] * b[1] + a[1] * b[4] + a[2] * b[7],\n    a[0] * b[2] + a[1] * b[5] + a[2] * b[8],\n    a[3] * b[0] + a[4] * b[3] + a[5] * b[6],\n    a[3] * b[1] + a[4] * b[4] + a[5] * b[7],\n    a[3] * b[2] + a[4] * b[5] + a[5] * b[8],\n    a[6] * b[0] + a[7] * b[3] + a[8] * b[6],\n    a[6] * b[1] + a[7] * b[4] + a[8] * b[7],\n    a[6] * b[2] + a[7] * b[5] + a[8] * b[8]\n  ];\n  const _homographyForRect = (rect, q) => {\n    const x = rect.left - vp.x, y = rect.top - vp.y, w = rect.width, h = rect.height;\n    if (w <= 0 || h <= 0) return null;\n    const a = (q[1].x - q[0].x) / w, d = (q[1].y - q[0].y) / w;\n    const b = (q[3].x - q[0].x) / h, e = (q[3].y - q[0].y) / h;\n    return [a, b, q[0].x - a * x - b * y, d, e, q[0].y - d * x - e * y, 0, 0, 1];\n  };\n  const _animInfluenced = /* @__PURE__ */ new Set();\n  for (let _ai = 0; _ai < _allEls.length; _ai++) {\n    const _ael = _allEls[_ai];\n    if (_ael.dataset == null || _ael.dataset.domotionAnim == null || _ael.dataset.domotionAnim === \"\") continue;\n    _animInfluenced.add(_ael);\n    const _adescs = _ael.getElementsByTagName(\"*\");\n    for (let _aj = 0; _aj < _adescs.length; _aj++) _animInfluenced.add(_adescs[_aj]);\n  }\n  const _cumulativeZoom = /* @__PURE__ */ new Map();\n  const _effectiveZoomFor = (el) => {\n    if (el == null) return 1;\n    const hit = _cumulativeZoom.get(el);\n    if (hit != null) return hit;\n    const parentZoom = _effectiveZoomFor(el.parentElement);\n    const own = parseFloat(getComputedStyle(el).zoom);\n    const zoom = parentZoom * (Number.isFinite(own) && own > 0 ? own : 1);\n    _cumulativeZoom.set(el, zoom);\n    return zoom;\n  };\n  const _backgroundAttachmentAxisScale = (_tt) => {\n    if (_tt == null || _tt === \"none\" || _tt === \"\") return [1, 1];\n    const _m2 = /^matrix\\(\\s*([-\\d.eE+]+)\\s*,\\s*([-\\d.eE+]+)\\s*,\\s*([-\\d.eE+]+)\\s*,\\s*([-\\d.eE+]+)/.exec(_tt);\n    let _sa = 1, _sd = 1;\n    if (_m2 != null) {\n      _sa = parseFloat(_m2[1]);\n      _sd = parseFloat(_m2[4]);\n    } else {\n      const _m3 = /^matrix3d\\(([^)]+)\\)/.exec(_tt);\n      if (_m3 != null) {\n        const _parts = _m3[1].split(\",\");\n        _sa = parseFloat(_parts[0]);\n        _sd = parseFloat(_parts[5]);\n      }\n    }\n    if (!isFinite(_sa) || !isFinite(_sd)) return [1, 1];\n    const _sx = Math.abs(_sa) > 0 ? Math.abs(_sa) : 1;\n    const _sy = Math.abs(_sd) > 0 ? Math.abs(_sd) : 1;\n    return [_sx, _sy];\n  };\n  const _backgroundAttachmentPaintScale = /* @__PURE__ */ new WeakMap();\n  const _backgroundAttachmentPaintScaleFor = (el) => {\n    if (el == null) return [1, 1];\n    const _hit = _backgroundAttachmentPaintScale.get(el);\n    if (_hit != null) return _hit;\n    const _parent = _backgroundAttachmentPaintScaleFor(el.parentElement);\n    const _styleWindow = el.ownerDocument?.defaultView ?? window;\n    const _style = _styleWindow.getComputedStyle(el);\n    const _effectiveTransform = composeEffectiveTransform(_style);\n    const _ownScale = transformHasRotationOrSkew(_effectiveTransform) ? [1, 1] : _backgroundAttachmentAxisScale(_effectiveTransform);\n    const _ownZoom = parseFloat(_style.zoom);\n    const _zoom = Number.isFinite(_ownZoom) && _ownZoom > 0 ? _ownZoom : 1;\n    const _resolved = [\n      _parent[0] * _ownScale[0] * _zoom,\n      _parent[1] * _ownScale[1] * _zoom\n    ];\n    _backgroundAttachmentPaintScale.set(el, _resolved);\n    return _resolved;\n  };\n  const _counterSnapshot = /* @__PURE__ */ new WeakMap();\n  function _parseCounterDecl(declStr, defaultValue) {\n    if (!declStr || declStr === \"none\") return [];\n    const tokens = declStr.split(/\\s+/);\n    const out = [];\n    let i = 0;\n    while (i < tokens.length) {\n      const name = tokens[i++];\n      if (!name) continue;\n      let value = defaultValue;\n      if (i < tokens.length && /^-?\\d+$/.test(tokens[i])) {\n        value = parseInt(tokens[i++], 10);\n      }\n      out.push({ name, value });\n    }\n    return out;\n  }\n  const _counterStacks = /* @__PURE__ */ new Map();\n  const _isAncestorOrSelf = (ancestor, node) => ancestor === node || ancestor.contains(node);\n  function _stack(name) {\n    let stack = _counterStacks.get(name);\n    if (stack == null) {\n      stack = [];\n      _counterStacks.set(name, stack);\n    }\n    return stack;\n  }\n  function _removeStale(name, el) {\n    const stack = _stack(name);\n    while (stack.length > 0) {\n      const parent = stack[stack.length - 1].scopeParent;\n      if (parent == null || _isAncestorOrSelf(parent, el)) break;\n      stack.pop();\n    }\n  }\n  function _findInnermost(name) {\n    const stack = _stack(name);\n    return stack.length ? stack[stack.length - 1] : null;\n  }\n  function _snapshotCounters() {\n    const result2 = [];\n    for (const [name, stack] of _counterStacks) for (const entry2 of stack) result2.push({ name, value: entry2.value });\n    return result2;\n  }\n  function _applyCounterStyle(owner, scopeParent, style) {\n    const touched = /* @__PURE__ */ new Set();\n    const resets = _parseCounterDecl(style.counterReset, 0);\n    const increments = _parseCounterDecl(style.counterIncrement, 1);\n    const sets = _parseCounterDecl(style.counterSet, 0);\n    for (const item of [...resets, ...increments, ...sets]) touched.add(item.name);\n    for (const name of touched) _removeStale(name, owner);\n    for (const { name, value } of resets) {\n      const stack = _stack(name);\n      if (stack.length && stack[stack.length - 1].scopeParent === scopeParent) stack.pop();\n      stack.push({ name, value, owner, scopeParent });\n    }\n    for (const { name, value } of increments) {\n      const current = _findInnermost(name);\n      if (current) current.value += value;\n      else _stack(name).push({ name, value, owner, scopeParent });\n    }\n    for (const { name, value } of sets) {\n      const current = _findInnermost(name);\n      if (current) current.value = value;\n      else _stack(name).push({ name, value, owner, scopeParent });\n    }\n    return touched;\n  }\n  function _counterPreWalk(el) {\n    const cs = window.getComputedStyle(el);\n    const touched = _applyCounterStyle(el, el.parentElement, cs);\n    const beforeStyle = window.getComputedStyle(el, \"::before\");\n    for (const name of _applyCounterStyle(el, el, beforeStyle)) touched.add(name);\n    const snapshots = { element: _snapshotCounters(), \"::before\": _snapshotCounters(), \"::after\": null };\n    for (const child of el.children) _counterPreWalk(child);\n    const afterStyle = window.getComputedStyle(el, \"::after\");\n    for (const name of _applyCounterStyle(el, el, afterStyle)) touched.add(name);\n    snapshots[\"::after\"] = _snapshotCounters();\n    _counterSnapshot.set(el, snapshots);\n    for (const name of touched) {\n      const stack = _stack(name);\n      if (stack.length < 2 || stack[stack.length - 1].owner !== el) continue;\n      const previous = stack[stack.length - 2].owner;\n      if (previous instanceof Element && previous.contains(el)) stack.pop();\n    }\n  }\n  _counterPreWalk(root);\n  _runCounterStylePrewalk();\n  const result = [];\n  const rootCs = window.getComputedStyle(root);\n  const rootHasBorder = (parseFloat(rootCs.borderTopWidth) || 0) > 0 || (parseFloat(rootCs.borderRightWidth) || 0) > 0 || (parseFloat(rootCs.borderBottomWidth) || 0) > 0 || (parseFloat(rootCs.borderLeftWidth) || 0) > 0;\n  const rootBg = rootCs.backgroundColor;\n  const rootBgImage = rootCs.backgroundImage;\n  const rootHasBgImage = rootBgImage != null && rootBgImage !== \"none\" && rootBgImage !== \"\";\n  const rootHasBg = rootBg != null && rootBg !== \"rgba(0, 0, 0, 0)\" && rootBg !== \"transparent\" || rootHasBgImage;\n  let rootHasDirectText = false;\n  for (const node of root.childNodes) {\n    if (node.nodeType === Node.TEXT_NODE && (node.textContent || \"\").trim() !== \"\") {\n      rootHasDirectText = true;\n      break;\n    }\n  }\n  if (rootHasBorder || rootHasBg || rootHasDirectText || _nonAffineProjectiveRoots.has(root)) {\n    const c = capture(root);\n    if (c) result.push(c);\n  } else {\n    for (const child of root.children) {\n      const c = capture(child);\n      if (c) result.push(c);\n    }\n  }\n  if (_maskDefs.size > 0 && result.length > 0) {\n    result[0].maskDefs = Array.from(_maskDefs.values());\n  }\n  if (_clipPathDefs.size > 0 && result.length > 0) {\n    result[0].clipPathDefs = Array.from(_clipPathDefs.values());\n  }\n  if (_filterDefs.size > 0 && result.length > 0) {\n    result[0].filterDefs = Array.from(_filterDefs.values());\n  }\n  if (_maskRasters.size > 0 && result.length > 0) {\n    var rasterArr = [];\n    for (var entry of _maskRasters.values()) {\n      if (entry != null) rasterArr.push(entry);\n    }\n    if (rasterArr.length > 0) result[0].maskRasters = rasterArr;\n  }\n  if (result.length > 0) {\n    try {\n      var _rootScrollbarOwner = document.scrollingElement;\n      var _rootScrollbarRecord = _rootScrollbarOwner != null && typeof args.sk === \"string\" && args.sk !== \"\" ? _rootScrollbarOwner[args.sk] : void 0;\n      if (_rootScrollbarRecord != null) result[0].rootScrollbars = _rootScrollbarRecord;\n      var _isDark = window.matchMedia(\"(prefers-color-scheme: dark)\").matches;\n      result[0].styles.rootColorScheme = _isDark ? \"dark\" : \"light\";\n      var _docCs = window.getComputedStyle(document.documentElement);\n      result[0].styles.rootBgComputed = _docCs.backgroundColor;\n      result[0].styles.rootOverflowX = _docCs.overflowX;\n      result[0].styles.rootOverflowY = _docCs.overflowY;\n    } catch (_e) {\n    }\n  }\n  return { tree: result, warnings: _warnings };\n};\nreturn ((args) => captureDocumentTree(args));\n})()\n";
+export const CAPTURE_SCRIPT: string = "\n(() => {\n// src/capture/script/color-norm.ts\nvar createColorNorm = () => {\n  const probe = document.createElement(\"div\");\n  probe.style.position = \"absolute\";\n  probe.style.visibility = \"hidden\";\n  document.body.appendChild(probe);\n  const normColor = (c, elColor) => {\n    if (c == null || c === \"\" || c === \"transparent\" || c === \"currentcolor\" || c === \"auto\") return c;\n    if (/^(rgba?\\(|#[0-9a-f]{3,8}$)/i.test(c)) return c;\n    var probeIn = c;\n    if (elColor != null && elColor !== \"\" && /\\bcurrentcolor\\b/i.test(c)) {\n      probeIn = c.replace(/\\bcurrentcolor\\b/gi, elColor);\n    }\n    try {\n      probe.style.color = \"\";\n      probe.style.color = \"color-mix(in srgb, \" + probeIn + \" 100%, transparent 0%)\";\n      const v = getComputedStyle(probe).color;\n      if (v != null && v !== \"\") return v;\n    } catch (e) {\n    }\n    return c;\n  };\n  const normGradientColors = (text, elColor) => {\n    if (text == null || text === \"\" || text === \"none\") return text;\n    const fnRe = /\\b(oklch|oklab|lab|lch|hwb|hsl|hsla|color|color-mix)\\(/gi;\n    var out = \"\";\n    var i = 0;\n    while (i < text.length) {\n      fnRe.lastIndex = i;\n      const m = fnRe.exec(text);\n      if (m == null) {\n        out += text.slice(i);\n        break;\n      }\n      out += text.slice(i, m.index);\n      var depth = 1;\n      var j = m.index + m[0].length;\n      while (j < text.length && depth > 0) {\n        const ch = text[j++];\n        if (ch === \"(\") depth++;\n        else if (ch === \")\") depth--;\n      }\n      const call = text.slice(m.index, j);\n      out += normColor(call, elColor);\n      i = j;\n    }\n    return out;\n  };\n  const dispose = () => {\n    probe.remove();\n  };\n  return { normColor, normGradientColors, dispose };\n};\n\n// src/capture/script/emoji-detect.ts\nvar RE_EMOJI = /\\p{Emoji}/u;\nvar RE_EMOJI_PRESENTATION = /\\p{Emoji_Presentation}/u;\nvar RE_EMOJI_MODIFIER_BASE = /\\p{Emoji_Modifier_Base}/u;\nvar RE_EMOJI_MODIFIER = /\\p{Emoji_Modifier}/u;\nvar RE_REGIONAL_INDICATOR = /\\p{Regional_Indicator}/u;\nvar emojiCategory = (cp) => {\n  const ch = String.fromCodePoint(cp);\n  if (cp <= 127) return cp === 35 || cp === 42 || cp >= 48 && cp <= 57 ? \"keycap\" : \"other\";\n  if (cp === 8419) return \"keycap-mark\";\n  if (cp === 8416) return \"circle-backslash\";\n  if (cp === 8205) return \"zwj\";\n  if (cp === 65038) return \"vs15\";\n  if (cp === 65039) return \"vs16\";\n  if (cp === 127988) return \"tag-base\";\n  if (cp >= 917536 && cp <= 917630) return \"tag-sequence\";\n  if (cp === 917631) return \"tag-term\";\n  if (RE_EMOJI_MODIFIER_BASE.test(ch)) return \"modifier-base\";\n  if (RE_EMOJI_MODIFIER.test(ch)) return \"modifier\";\n  if (RE_REGIONAL_INDICATOR.test(ch)) return \"regional-indicator\";\n  if (RE_EMOJI_PRESENTATION.test(ch)) return \"emoji-default\";\n  if (RE_EMOJI.test(ch)) return \"text-default\";\n  return \"other\";\n};\nvar isAnyEmoji = (cat) => cat === \"text-default\" || cat === \"emoji-default\" || cat === \"keycap\" || cat === \"modifier-base\" || cat === \"tag-base\";\nvar scanEmojiPresentation = (text, classify = emojiCategory) => {\n  const units = [];\n  for (let i2 = 0; i2 < text.length; ) {\n    const cp = text.codePointAt(i2);\n    const ch = String.fromCodePoint(cp);\n    units.push({ start: i2, end: i2 + ch.length, cat: classify(cp) });\n    i2 += ch.length;\n  }\n  const spans = [];\n  const push = (startUnit, endUnit, presentation, hasVs) => spans.push({\n    start: units[startUnit].start,\n    end: units[endUnit - 1].end,\n    presentation,\n    hasVs\n  });\n  const elementEnd = (at) => {\n    if (at >= units.length || !isAnyEmoji(units[at].cat)) return at;\n    if (at + 1 < units.length && units[at + 1].cat === \"vs16\") return at + 2;\n    if (units[at].cat === \"modifier-base\" && at + 1 < units.length && units[at + 1].cat === \"modifier\") return at + 2;\n    return at + 1;\n  };\n  let i = 0;\n  while (i < units.length) {\n    const c = units[i].cat;\n    if (isAnyEmoji(c) && i + 1 < units.length && units[i + 1].cat === \"vs15\") {\n      let end2 = i + 2;\n      if (c === \"keycap\" && end2 < units.length && units[end2].cat === \"keycap-mark\") end2++;\n      push(i, end2, \"text\", true);\n      i = end2;\n      continue;\n    }\n    let end = 0;\n    let hasVs = false;\n    if (isAnyEmoji(c) && i + 1 < units.length && units[i + 1].cat === \"vs16\") {\n      end = i + 2;\n      hasVs = true;\n      if (c === \"keycap\" && end < units.length && units[end].cat === \"keycap-mark\") end++;\n    } else if (c === \"modifier-base\" && i + 1 < units.length && units[i + 1].cat === \"modifier\") {\n      end = i + 2;\n    } else if (c === \"regional-indicator\" && i + 1 < units.length && units[i + 1].cat === \"regional-indicator\") {\n      end = i + 2;\n    } else if (c === \"tag-base\") {\n      let j = i + 1;\n      while (j < units.length && units[j].cat === \"tag-sequence\") j++;\n      if (j > i + 1 && j < units.length && units[j].cat === \"tag-term\") end = j + 1;\n      else end = i + 1;\n    } else if (isAnyEmoji(c) && i + 1 < units.length && units[i + 1].cat === \"circle-backslash\") {\n      end = i + 2;\n    } else if (c === \"emoji-default\" || c === \"tag-base\" || c === \"modifier-base\") {\n      end = i + 1;\n    }\n    const firstElementEnd = elementEnd(i);\n    if (firstElementEnd > i) {\n      let j = firstElementEnd;\n      let joined = false;\n      while (j + 1 < units.length && units[j].cat === \"zwj\") {\n        const nextEnd = elementEnd(j + 1);\n        if (nextEnd === j + 1) break;\n        joined = true;\n        j = nextEnd;\n      }\n      if (joined) {\n        end = j;\n        hasVs = false;\n      }\n    }\n    if (end > i) {\n      push(i, end, \"emoji\", hasVs);\n      i = end;\n      continue;\n    }\n    i++;\n  }\n  return spans;\n};\nvar createEmojiDetect = () => {\n  const rasterCandidates = (text, fontVariantEmoji = \"normal\") => {\n    const spans = scanEmojiPresentation(text);\n    if (fontVariantEmoji != null && fontVariantEmoji !== \"normal\" && fontVariantEmoji !== \"unicode\") {\n      const covered = /* @__PURE__ */ new Set();\n      for (const span of spans) for (let i = span.start; i < span.end; i++) covered.add(i);\n      for (let i = 0; i < text.length; ) {\n        const cp = text.codePointAt(i);\n        const ch = String.fromCodePoint(cp);\n        const next = i + ch.length < text.length ? text.codePointAt(i + ch.length) : 0;\n        if (!covered.has(i) && RE_EMOJI.test(ch) && next !== 65038 && next !== 65039) {\n          spans.push({ start: i, end: i + ch.length, presentation: fontVariantEmoji, hasVs: false });\n        } else if (fontVariantEmoji === \"text\") {\n          const span = spans.find((s) => s.start === i);\n          if (span != null && !span.hasVs) span.presentation = \"text\";\n        }\n        i += ch.length;\n      }\n    }\n    const byStart = new Map(spans.map((span) => [span.start, span]));\n    const candidates = [];\n    const segmenter = typeof Intl !== \"undefined\" && Intl.Segmenter != null ? new Intl.Segmenter(void 0, { granularity: \"grapheme\" }) : null;\n    if (segmenter != null) {\n      for (const part of segmenter.segment(text)) {\n        if (/^\\s+$/u.test(part.segment)) continue;\n        const source = byStart.get(part.index);\n        candidates.push(source ?? { start: part.index, end: part.index + part.segment.length, presentation: \"text\", hasVs: false });\n      }\n    } else {\n      for (let i = 0; i < text.length; ) {\n        const cp = text.codePointAt(i);\n        const ch = String.fromCodePoint(cp);\n        if (!/^\\s+$/u.test(ch)) candidates.push(byStart.get(i) ?? { start: i, end: i + ch.length, presentation: \"text\", hasVs: false });\n        i += ch.length;\n      }\n    }\n    return candidates;\n  };\n  const textNeedsRaster = (text, _font = \"\", fontVariantEmoji = \"normal\") => {\n    const spans = scanEmojiPresentation(text);\n    if (fontVariantEmoji === \"emoji\") return spans.length > 0 || [...text].some((ch) => RE_EMOJI.test(ch));\n    return spans.length > 0;\n  };\n  return { rasterCandidates, textNeedsRaster };\n};\n\n// src/capture/script/dotted-circle-detect.ts\nvar dottedCircleInkMatches = (bare, comb) => {\n  const ratio = comb.cnt > 0 ? bare.cnt / comb.cnt : 0;\n  let union = 0, xor = 0;\n  for (let i = 0; i < bare.mask.length; i++) {\n    if (bare.mask[i] || comb.mask[i]) union++;\n    if (bare.mask[i] !== comb.mask[i]) xor++;\n  }\n  const mismatch = union > 0 ? xor / union : 1;\n  return bare.cnt > 20 && ratio > 0.9 && comb.w <= bare.w * 1.25 && mismatch < 0.12;\n};\nvar isDottedCircleProbeCandidate = (ch) => /\\p{M}|\\p{Lo}|\\p{Lm}/u.test(ch);\nvar createDottedCircleDetect = () => {\n  let _cv = null;\n  let _ctx = null;\n  const _cache = /* @__PURE__ */ new Map();\n  const inkStats = (s, font) => {\n    if (_ctx == null) {\n      _cv = document.createElement(\"canvas\");\n      _cv.width = 96;\n      _cv.height = 64;\n      _ctx = _cv.getContext(\"2d\", { willReadFrequently: true });\n    }\n    _ctx.clearRect(0, 0, 96, 64);\n    _ctx.fillStyle = \"#000\";\n    _ctx.textBaseline = \"middle\";\n    _ctx.font = \"32px \" + font;\n    _ctx.fillText(s, 40, 32);\n    const data = _ctx.getImageData(0, 0, 96, 64).data;\n    let cnt = 0, minx = 1e9, maxx = -1;\n    const mask = new Uint8Array(96 * 64);\n    for (let y = 0; y < 64; y++) {\n      for (let x = 0; x < 96; x++) {\n        if (data[(y * 96 + x) * 4 + 3] > 20) {\n          mask[y * 96 + x] = 1;\n          cnt++;\n          if (x < minx) minx = x;\n          if (x > maxx) maxx = x;\n        }\n      }\n    }\n    return { cnt, w: cnt > 0 ? maxx - minx + 1 : 0, mask };\n  };\n  const markGetsDottedCircle = (cp, ch, font) => {\n    if (font == null || font === \"\") return false;\n    if (!isDottedCircleProbeCandidate(ch)) return false;\n    const key = cp + \"|\" + font;\n    const hit = _cache.get(key);\n    if (hit !== void 0) return hit;\n    let res = false;\n    try {\n      const bare = inkStats(ch, font);\n      const comb = inkStats(\"\\u25CC\" + ch, font);\n      res = dottedCircleInkMatches(bare, comb);\n    } catch (e) {\n      res = false;\n    }\n    _cache.set(key, res);\n    return res;\n  };\n  return { markGetsDottedCircle };\n};\n\n// src/capture/script/font-metrics.ts\nvar createFontMetrics = () => {\n  const metricsCache = /* @__PURE__ */ new Map();\n  const localFaceMap = /* @__PURE__ */ new Map();\n  const probeWidthCS = (familyExpr, weight, style) => {\n    const span = document.createElement(\"span\");\n    span.style.cssText = \"position:absolute;left:-9999px;top:-9999px;visibility:hidden;font-size:16px;line-height:1;white-space:pre\";\n    span.style.fontFamily = familyExpr;\n    span.style.fontWeight = weight;\n    span.style.fontStyle = style;\n    span.textContent = \"mIw0\";\n    document.body.appendChild(span);\n    const w = span.getBoundingClientRect().width;\n    document.body.removeChild(span);\n    return w;\n  };\n  for (const sheet of Array.from(document.styleSheets)) {\n    let cssRules;\n    try {\n      cssRules = sheet.cssRules;\n    } catch (e) {\n      continue;\n    }\n    for (const rule of Array.from(cssRules)) {\n      if (rule.constructor.name !== \"CSSFontFaceRule\") continue;\n      const r = rule;\n      const family = r.style.getPropertyValue(\"font-family\").trim().replace(/^[\"']|[\"']$/g, \"\").toLowerCase();\n      const weight = r.style.getPropertyValue(\"font-weight\") || \"400\";\n      const styleDesc = r.style.getPropertyValue(\"font-style\") || \"normal\";\n      const src = r.style.getPropertyValue(\"src\");\n      if (family === \"\" || /url\\(/.test(src)) continue;\n      const matches = src.match(/local\\(\\s*[\"']?[^\"')]+?[\"']?\\s*\\)/g);\n      if (matches == null) continue;\n      const locals = [];\n      for (const mm of matches) {\n        const inner = /local\\(\\s*[\"']?([^\"')]+?)[\"']?\\s*\\)/.exec(mm);\n        if (inner != null) locals.push(inner[1].trim());\n      }\n      if (locals.length === 0) continue;\n      const stripVariant = (n) => n.replace(/\\s+(Bold Italic|Italic Bold|Bold|Italic|Oblique|Regular|Light|Medium|Semibold|Black)$/i, \"\").trim();\n      let resolved = null;\n      const aliasW = probeWidthCS('\"' + family + '\"', weight, styleDesc);\n      for (const cand of locals) {\n        const candW = probeWidthCS('\"' + stripVariant(cand) + '\"', weight, styleDesc);\n        if (Math.abs(candW - aliasW) < 0.05) {\n          resolved = cand;\n          break;\n        }\n      }\n      if (resolved == null) resolved = locals[0];\n      if (!localFaceMap.has(family)) localFaceMap.set(family, resolved);\n    }\n  }\n  const substituteAliasedFamilies = (ff) => {\n    if (localFaceMap.size === 0) return ff;\n    const parts = ff.split(\",\").map((s) => s.trim());\n    let changed = false;\n    const out = parts.map((p) => {\n      const bare = p.replace(/^[\"']|[\"']$/g, \"\").toLowerCase();\n      const local = localFaceMap.get(bare);\n      if (local == null) return p;\n      changed = true;\n      return /\\s/.test(local) ? '\"' + local + '\"' : local;\n    });\n    return changed ? out.join(\", \") : ff;\n  };\n  const measureFontMetrics = (cs, fontSizeOverride) => {\n    const fs = cs.fontStyle || \"normal\";\n    const fw = cs.fontWeight || \"400\";\n    const fz = fontSizeOverride || cs.fontSize || \"14px\";\n    const ff = substituteAliasedFamilies(cs.fontFamily || \"sans-serif\");\n    const key = fs + \"|\" + fw + \"|\" + fz + \"|\" + ff;\n    let v = metricsCache.get(key);\n    if (v != null) return v;\n    const c = document.createElement(\"canvas\");\n    const ctx = c.getContext(\"2d\");\n    ctx.font = fs + \" \" + fw + \" \" + fz + \" \" + ff;\n    const m = ctx.measureText(\"Mxgp\");\n    v = { ascent: m.fontBoundingBoxAscent, descent: m.fontBoundingBoxDescent };\n    metricsCache.set(key, v);\n    return v;\n  };\n  return { measureFontMetrics, substituteAliasedFamilies };\n};\n\n// src/capture/script/utils.ts\nvar isUnsetCssValue = (v) => v === \"\" || v === \"initial\" || v === \"inherit\" || v === \"unset\" || v === \"revert\";\nvar hasCssValue = (v) => v != null && v !== \"\" && v !== \"none\";\nvar extractCssUrl = (value) => {\n  const u = /\\burl\\(\\s*(?:\"((?:\\\\.|[^\"\\\\])*)\"|'((?:\\\\.|[^'\\\\])*)'|([^)\\s]+))\\s*\\)/.exec(value || \"\");\n  if (u == null) return null;\n  const raw = u[1] || u[2] || u[3] || \"\";\n  if (raw === \"\") return null;\n  return raw.replace(/\\\\(.)/g, \"$1\");\n};\nvar sideWidths = (cs, prop, suffix) => ({\n  top: parseFloat(cs[prop + \"Top\" + suffix]) || 0,\n  right: parseFloat(cs[prop + \"Right\" + suffix]) || 0,\n  bottom: parseFloat(cs[prop + \"Bottom\" + suffix]) || 0,\n  left: parseFloat(cs[prop + \"Left\" + suffix]) || 0\n});\nvar NAMED_COLOR_ALTERNATION = \"lightgoldenrodyellow|mediumspringgreen|mediumaquamarine|mediumslateblue|mediumturquoise|mediumvioletred|blanchedalmond|cornflowerblue|darkolivegreen|lightslategray|lightslategrey|lightsteelblue|mediumseagreen|darkgoldenrod|darkslateblue|darkslategray|darkslategrey|darkturquoise|lavenderblush|lightseagreen|palegoldenrod|paleturquoise|palevioletred|rebeccapurple|antiquewhite|darkseagreen|lemonchiffon|lightskyblue|mediumorchid|mediumpurple|midnightblue|darkmagenta|deepskyblue|floralwhite|forestgreen|greenyellow|lightsalmon|lightyellow|navajowhite|saddlebrown|springgreen|yellowgreen|aquamarine|blueviolet|chartreuse|darkorange|darkorchid|darksalmon|darkviolet|dodgerblue|ghostwhite|lightcoral|lightgreen|mediumblue|papayawhip|powderblue|sandybrown|whitesmoke|aliceblue|burlywood|cadetblue|chocolate|darkgreen|darkkhaki|firebrick|gainsboro|goldenrod|indianred|lawngreen|lightblue|lightcyan|lightgray|lightgrey|lightpink|limegreen|mintcream|mistyrose|olivedrab|orangered|palegreen|peachpuff|rosybrown|royalblue|slateblue|slategray|slategrey|steelblue|turquoise|cornsilk|darkblue|darkcyan|darkgray|darkgrey|deeppink|honeydew|lavender|moccasin|seagreen|seashell|crimson|darkred|dimgray|dimgrey|fuchsia|hotpink|magenta|oldlace|skyblue|thistle|bisque|indigo|maroon|orange|orchid|purple|salmon|sienna|silver|tomato|violet|yellow|azure|beige|black|brown|coral|green|ivory|khaki|linen|olive|wheat|white|aqua|blue|cyan|gold|gray|grey|lime|navy|peru|pink|plum|snow|teal|red|tan|transparent|currentColor\";\nvar firstColorRe = new RegExp(\n  `(#[0-9a-fA-F]{3,8}|rgba?\\\\([^)]*\\\\)|hsla?\\\\([^)]*\\\\)|\\\\b(?:${NAMED_COLOR_ALTERNATION})\\\\b)`\n);\nvar _TEXT_INPUT_TYPES = /* @__PURE__ */ new Set([\"text\", \"search\", \"url\", \"tel\", \"email\", \"password\", \"number\"]);\nvar resolveElementCursor = (el, cs) => {\n  let c = (cs.cursor || \"auto\").trim();\n  if (c.indexOf(\"url(\") !== -1) {\n    const parts = c.split(\",\");\n    c = parts[parts.length - 1].trim();\n  }\n  if (c !== \"auto\") return c;\n  const tag = el.tagName;\n  const editable = el.isContentEditable === true || tag === \"TEXTAREA\" || tag === \"INPUT\" && _TEXT_INPUT_TYPES.has((el.getAttribute(\"type\") || \"text\").toLowerCase());\n  let selectableText = false;\n  if (!editable) {\n    const us = cs.userSelect || cs.webkitUserSelect || \"\";\n    if (us !== \"none\") {\n      for (let i = 0; i < el.childNodes.length; i++) {\n        const n = el.childNodes[i];\n        if (n.nodeType === 3 && n.textContent && n.textContent.trim() !== \"\") {\n          selectableText = true;\n          break;\n        }\n      }\n    }\n  }\n  if (editable || selectableText) {\n    return (cs.writingMode || \"\").indexOf(\"vertical\") === 0 ? \"vertical-text\" : \"text\";\n  }\n  return \"default\";\n};\nvar isOutsideCaptureViewport = (rect, vp) => rect.right < vp.x || rect.bottom < vp.y || rect.left > vp.x + vp.width || rect.top > vp.y + vp.height;\n\n// src/capture/script/placeholder-shown.ts\nvar createPlaceholderShown = () => {\n  const rules = [];\n  const collect = (cssRules) => {\n    if (cssRules == null) return;\n    for (let i = 0; i < cssRules.length; i++) {\n      const rule = cssRules[i];\n      if (rule == null) continue;\n      const sel = rule.selectorText;\n      if (typeof sel === \"string\" && sel.indexOf(\":placeholder-shown\") >= 0) {\n        const hostSel = sel.replace(/:placeholder-shown/g, \"\").trim() || \"*\";\n        const decl = rule.style;\n        let bg = \"\";\n        if (!isUnsetCssValue(decl.backgroundColor)) bg = decl.backgroundColor;\n        else if (!isUnsetCssValue(decl.background)) {\n          const cm = decl.background.match(firstColorRe);\n          if (cm != null) bg = cm[1];\n        }\n        if (bg !== \"\") rules.push({ hostSel, bg });\n      }\n      if (rule.cssRules != null && rule.cssRules.length > 0) collect(rule.cssRules);\n    }\n  };\n  for (let i = 0; i < document.styleSheets.length; i++) {\n    try {\n      collect(document.styleSheets[i].cssRules);\n    } catch (e) {\n    }\n  }\n  const resolvePlaceholderShownBg = (el) => {\n    let bg = \"\";\n    for (let i = 0; i < rules.length; i++) {\n      const r = rules[i];\n      let isMatch = false;\n      try {\n        isMatch = el.matches(r.hostSel);\n      } catch (e) {\n      }\n      if (isMatch) bg = r.bg;\n    }\n    return bg;\n  };\n  return { resolvePlaceholderShownBg };\n};\n\n// src/capture/script/font-family-default.ts\nvar GENERIC_FAMILY_KEYWORDS = {\n  \"serif\": 1,\n  \"sans-serif\": 1,\n  \"monospace\": 1,\n  \"cursive\": 1,\n  \"fantasy\": 1,\n  \"system-ui\": 1,\n  \"ui-serif\": 1,\n  \"ui-sans-serif\": 1,\n  \"ui-monospace\": 1,\n  \"ui-rounded\": 1,\n  \"emoji\": 1,\n  \"math\": 1,\n  \"fangsong\": 1,\n  \"-webkit-body\": 1,\n  \"-webkit-standard\": 1,\n  \"-webkit-pictograph\": 1\n};\nvar createFontFamilyDefault = () => {\n  const selectorsByDocument = /* @__PURE__ */ new WeakMap();\n  const collect = (cssRules, familySelectors) => {\n    if (cssRules == null) return;\n    for (let i = 0; i < cssRules.length; i++) {\n      const rule = cssRules[i];\n      if (rule == null) continue;\n      const sel = rule.selectorText;\n      if (typeof sel === \"string\" && rule.style != null && rule.style.fontFamily !== \"\") {\n        familySelectors.push(sel);\n      }\n      if (rule.cssRules != null && rule.cssRules.length > 0) collect(rule.cssRules, familySelectors);\n    }\n  };\n  const selectorsFor = (doc) => {\n    const cached = selectorsByDocument.get(doc);\n    if (cached != null) return cached;\n    const familySelectors = [];\n    for (let i = 0; i < doc.styleSheets.length; i++) {\n      try {\n        collect(doc.styleSheets[i].cssRules, familySelectors);\n      } catch (e) {\n      }\n    }\n    selectorsByDocument.set(doc, familySelectors);\n    return familySelectors;\n  };\n  const UA_CONCRETE_FAMILY_TAGS = { INPUT: 1, TEXTAREA: 1, SELECT: 1, BUTTON: 1, KEYGEN: 1 };\n  const nodeSetsNonStandardFamily = (n, familySelectors) => {\n    if (UA_CONCRETE_FAMILY_TAGS[n.tagName] === 1) return true;\n    if (n.style != null && n.style.fontFamily !== \"\") return true;\n    if (n.tagName === \"FONT\" && n.hasAttribute(\"face\")) return true;\n    for (let i = 0; i < familySelectors.length; i++) {\n      let m = false;\n      try {\n        m = n.matches(familySelectors[i]);\n      } catch (e) {\n      }\n      if (m) return true;\n    }\n    return false;\n  };\n  const familyIsUADefault = (el, computedFontFamily) => {\n    if (typeof computedFontFamily !== \"string\" || computedFontFamily === \"\") return false;\n    const familySelectors = selectorsFor(el.ownerDocument || document);\n    let first = computedFontFamily.split(\",\")[0].trim();\n    if (first.charCodeAt(0) === 34 || first.charCodeAt(0) === 39) {\n      first = first.slice(1, -1);\n    }\n    if (first === \"\" || GENERIC_FAMILY_KEYWORDS[first.toLowerCase()] === 1) return false;\n    let n = el;\n    while (n != null && n.nodeType === 1) {\n      if (nodeSetsNonStandardFamily(n, familySelectors)) return false;\n      n = n.parentElement;\n    }\n    return true;\n  };\n  return { familyIsUADefault };\n};\n\n// src/capture/script/font-feature-values.ts\nfunction collectFontFeatureValues(doc) {\n  const families = {};\n  const categories = [\"annotation\", \"ornaments\", \"stylistic\", \"swash\", \"characterVariant\", \"styleset\"];\n  function familyNames(css) {\n    const out = [];\n    let token = \"\", quote = \"\";\n    for (const ch of css) {\n      if (quote) {\n        if (ch === quote) quote = \"\";\n        else token += ch;\n        continue;\n      }\n      if (ch === '\"' || ch === \"'\") {\n        quote = ch;\n        continue;\n      }\n      if (ch === \",\") {\n        if (token.trim()) out.push(token.trim().toLowerCase());\n        token = \"\";\n      } else token += ch;\n    }\n    if (token.trim()) out.push(token.trim().toLowerCase());\n    return out;\n  }\n  function visit(rules) {\n    if (!rules) return;\n    for (const rule of rules) {\n      if (typeof rule.fontFamily === \"string\" && rule.stylistic != null) {\n        for (const family of familyNames(rule.fontFamily)) {\n          const table = families[family] || (families[family] = {});\n          for (const category of categories) {\n            const entries = Array.from(rule[category].entries());\n            if (!entries.length) continue;\n            const aliases = table[category] || (table[category] = {});\n            for (const [name, values] of entries) aliases[name] = Array.from(values);\n          }\n        }\n      } else if (rule.cssRules) {\n        visit(rule.cssRules);\n      }\n    }\n  }\n  for (const sheet of doc.styleSheets) {\n    try {\n      visit(sheet.cssRules);\n    } catch {\n    }\n  }\n  return families;\n}\n\n// src/capture/script/pseudo-rules.ts\nvar _emptyPseudo = {\n  matched: false,\n  width: \"\",\n  height: \"\",\n  backgroundColor: \"\",\n  borderRadius: \"\",\n  backgroundImage: \"\",\n  border: \"\",\n  padding: \"\",\n  boxShadow: \"\"\n};\nvar createPseudoRules = (stylesByHost, propertyKey) => {\n  const resolveCornerRadius = (v, w, h, zoom) => {\n    if (v == null || v === \"\") return \"0px 0px\";\n    const z = zoom == null || zoom <= 0 ? 1 : zoom;\n    const parts = v.split(/\\s+/);\n    const a = parts[0] || \"0\";\n    const b = parts[1] != null ? parts[1] : a;\n    const aPx = a.endsWith(\"%\") ? (parseFloat(a) || 0) * w / 100 : (parseFloat(a) || 0) * z;\n    const bPx = b.endsWith(\"%\") ? (parseFloat(b) || 0) * h / 100 : (parseFloat(b) || 0) * z;\n    return aPx + \"px \" + bPx + \"px\";\n  };\n  const resolvePseudo = (el, kind) => {\n    if (propertyKey == null || propertyKey === \"\" || stylesByHost == null) return _emptyPseudo;\n    const hostId = el[propertyKey];\n    if (hostId == null) return _emptyPseudo;\n    return stylesByHost[hostId] && stylesByHost[hostId][kind] ? stylesByHost[hostId][kind] : _emptyPseudo;\n  };\n  return { resolvePseudo, resolveCornerRadius };\n};\n\n// src/capture/script/warnings.ts\nvar createWarnings = () => {\n  const warnings = [];\n  const seen = /* @__PURE__ */ new Set();\n  const shortSelector = (el) => {\n    const parts = [];\n    let cur = el;\n    while (cur != null && cur.nodeType === 1 && cur !== document.documentElement && parts.length < 5) {\n      let p = cur.tagName.toLowerCase();\n      if (cur.id) {\n        p += \"#\" + cur.id;\n        parts.unshift(p);\n        break;\n      }\n      if (cur.className && typeof cur.className === \"string\") {\n        const cls = cur.className.trim().split(/\\s+/).slice(0, 2).join(\".\");\n        if (cls !== \"\") p += \".\" + cls;\n      }\n      parts.unshift(p);\n      cur = cur.parentElement;\n    }\n    return parts.join(\" > \");\n  };\n  const warn = (sel, feature, detail) => {\n    const k = feature + \"|\" + sel;\n    if (seen.has(k)) return;\n    seen.add(k);\n    warnings.push({ selector: sel, feature, detail });\n  };\n  return { warn, shortSelector, warnings };\n};\n\n// src/capture/script/walker/counter-style-resolver.ts\nvar createCounterStyleResolver = ({ counterStyles }) => {\n  const BUILTINS = /* @__PURE__ */ new Set([\n    \"decimal\",\n    \"decimal-leading-zero\",\n    \"lower-alpha\",\n    \"lower-latin\",\n    \"upper-alpha\",\n    \"upper-latin\",\n    \"lower-roman\",\n    \"upper-roman\",\n    \"lower-greek\",\n    \"disc\",\n    \"circle\",\n    \"square\",\n    \"none\"\n  ]);\n  const resolveCounterStyle = (name, n) => _resolve(name, n, 0, true);\n  const resolveCounterValue = (name, n) => _resolve(name, n, 0, false);\n  const isCustomCounterStyle = (name) => counterStyles[name] != null;\n  const _resolve = (name, n, depth, wrap) => {\n    if (depth > 16) return null;\n    if (BUILTINS.has(name)) return _formatBuiltin(name, n);\n    const def = counterStyles[name];\n    if (def == null) return _formatBuiltin(\"decimal\", n);\n    if (def.system === \"extends\" && def.extendsName != null) {\n      const childSym = _resolve(def.extendsName, n, depth + 1, wrap);\n      if (childSym == null) return null;\n      const padded2 = _applyPad(childSym, def.padLen, def.padSym);\n      return wrap ? def.prefix + padded2 + def.suffix : padded2;\n    }\n    if (n < def.rangeLo || n > def.rangeHi) {\n      const fb = _resolve(def.fallback ?? \"decimal\", n, depth + 1, false);\n      if (fb == null) return null;\n      return wrap ? def.prefix + fb + def.suffix : fb;\n    }\n    const negative = n < 0;\n    const abs = Math.abs(n);\n    let core = null;\n    switch (def.system) {\n      case \"cyclic\":\n        if (def.symbols.length === 0) break;\n        core = def.symbols[((abs - 1) % def.symbols.length + def.symbols.length) % def.symbols.length];\n        break;\n      case \"fixed\": {\n        const idx0 = abs - 1;\n        if (idx0 >= 0 && idx0 < def.symbols.length) core = def.symbols[idx0];\n        break;\n      }\n      case \"numeric\": {\n        if (def.symbols.length < 2) break;\n        if (abs === 0) {\n          core = def.symbols[0];\n          break;\n        }\n        const base = def.symbols.length;\n        let v = abs;\n        let s = \"\";\n        while (v > 0) {\n          s = def.symbols[v % base] + s;\n          v = Math.floor(v / base);\n        }\n        core = s;\n        break;\n      }\n      case \"alphabetic\": {\n        if (def.symbols.length === 0 || abs <= 0) break;\n        const base = def.symbols.length;\n        let v = abs;\n        let s = \"\";\n        while (v > 0) {\n          v--;\n          s = def.symbols[v % base] + s;\n          v = Math.floor(v / base);\n        }\n        core = s;\n        break;\n      }\n      case \"symbolic\": {\n        if (def.symbols.length === 0 || abs <= 0) break;\n        const base = def.symbols.length;\n        const copies = Math.ceil(abs / base);\n        const sym = def.symbols[(abs - 1) % base];\n        core = sym.repeat(copies);\n        break;\n      }\n      case \"additive\": {\n        if (def.additiveSymbols.length === 0) break;\n        if (abs === 0) {\n          const zero = def.additiveSymbols.find((s) => s.weight === 0);\n          core = zero ? zero.sym : null;\n        } else {\n          let v = abs;\n          let s = \"\";\n          for (const { weight, sym } of def.additiveSymbols) {\n            if (weight <= 0) continue;\n            const count = Math.floor(v / weight);\n            for (let i = 0; i < count; i++) s += sym;\n            v -= count * weight;\n          }\n          core = v === 0 ? s : null;\n        }\n        break;\n      }\n    }\n    if (core == null) {\n      const fb = _resolve(def.fallback ?? \"decimal\", n, depth + 1, false);\n      if (fb == null) return null;\n      return wrap ? def.prefix + fb + def.suffix : fb;\n    }\n    const padded = _applyPad(core, def.padLen, def.padSym);\n    const sign = negative ? def.negPrefix : \"\";\n    const signTail = negative ? def.negSuffix : \"\";\n    return wrap ? def.prefix + sign + padded + signTail + def.suffix : sign + padded + signTail;\n  };\n  const _applyPad = (s, len, sym) => {\n    if (!len || !sym) return s;\n    while ([...s].length < len) s = sym + s;\n    return s;\n  };\n  const _formatBuiltin = (type, n) => {\n    switch (type) {\n      case \"decimal\":\n        return String(n);\n      case \"decimal-leading-zero\":\n        return n < 10 && n >= 0 ? \"0\" + n : String(n);\n      case \"lower-alpha\":\n      case \"lower-latin\":\n        return _alphaMarker(n, false);\n      case \"upper-alpha\":\n      case \"upper-latin\":\n        return _alphaMarker(n, true);\n      case \"lower-roman\":\n        return _romanMarker(n).toLowerCase();\n      case \"upper-roman\":\n        return _romanMarker(n);\n      case \"lower-greek\":\n        return _greekMarker(n);\n      case \"disc\":\n      case \"circle\":\n      case \"square\":\n      case \"none\":\n        return null;\n      default:\n        return String(n);\n    }\n  };\n  const _alphaMarker = (n, upper) => {\n    if (n <= 0) return String(n);\n    const base = upper ? 65 : 97;\n    let s = \"\";\n    let v = n;\n    while (v > 0) {\n      v--;\n      s = String.fromCharCode(base + v % 26) + s;\n      v = Math.floor(v / 26);\n    }\n    return s;\n  };\n  const _greekMarker = (n) => {\n    if (n <= 0) return String(n);\n    const greek = \"\\u03B1\\u03B2\\u03B3\\u03B4\\u03B5\\u03B6\\u03B7\\u03B8\\u03B9\\u03BA\\u03BB\\u03BC\\u03BD\\u03BE\\u03BF\\u03C0\\u03C1\\u03C3\\u03C4\\u03C5\\u03C6\\u03C7\\u03C8\\u03C9\";\n    let s = \"\";\n    let v = n;\n    while (v > 0) {\n      v--;\n      s = greek.charAt(v % 24) + s;\n      v = Math.floor(v / 24);\n    }\n    return s;\n  };\n  const _romanMarker = (n) => {\n    if (n <= 0 || n >= 4e3) return String(n);\n    const vals = [1e3, 900, 500, 400, 100, 90, 50, 40, 10, 9, 5, 4, 1];\n    const syms = [\"M\", \"CM\", \"D\", \"CD\", \"C\", \"XC\", \"L\", \"XL\", \"X\", \"IX\", \"V\", \"IV\", \"I\"];\n    let s = \"\";\n    let v = n;\n    for (let i = 0; i < vals.length; i++) {\n      while (v >= vals[i]) {\n        s += syms[i];\n        v -= vals[i];\n      }\n    }\n    return s;\n  };\n  return { resolveCounterStyle, resolveCounterValue, isCustomCounterStyle };\n};\n\n// src/capture/script/walker/counter-prewalk.ts\nvar createCounterStylePrewalk = ({ counterStyles }) => {\n  function _parseStringList(s) {\n    const out = [];\n    let i = 0;\n    while (i < s.length) {\n      while (i < s.length && /\\s/.test(s[i])) i++;\n      if (i >= s.length) break;\n      const q = s[i];\n      if (q !== '\"' && q !== \"'\") {\n        let j2 = i;\n        while (j2 < s.length && !/\\s/.test(s[j2])) j2++;\n        out.push(s.slice(i, j2));\n        i = j2;\n        continue;\n      }\n      let j = i + 1;\n      let val = \"\";\n      while (j < s.length && s[j] !== q) {\n        if (s[j] === \"\\\\\" && j + 1 < s.length) {\n          const hex = /^\\\\([0-9a-fA-F]{1,6})\\s?/.exec(s.slice(j));\n          if (hex != null) {\n            val += String.fromCodePoint(parseInt(hex[1], 16));\n            j += hex[0].length;\n            continue;\n          }\n          val += s[j + 1];\n          j += 2;\n        } else {\n          val += s[j];\n          j++;\n        }\n      }\n      out.push(val);\n      i = j + 1;\n    }\n    return out;\n  }\n  function _parseAdditiveSymbols(s) {\n    const out = [];\n    for (const tok of s.split(\",\")) {\n      const m = /(-?\\d+)\\s+(.+)/.exec(tok.trim());\n      if (m == null) continue;\n      const weight = parseInt(m[1], 10);\n      const sym = _parseStringList(m[2])[0] ?? \"\";\n      out.push({ weight, sym });\n    }\n    out.sort((a, b) => b.weight - a.weight);\n    return out;\n  }\n  function _walkRulesForCounterStyles(rules) {\n    for (let i = 0; i < rules.length; i++) {\n      const rule = rules[i];\n      if (rule.type === 11 || window.CSSCounterStyleRule != null && rule instanceof window.CSSCounterStyleRule) {\n        const name = rule.name;\n        if (!name) continue;\n        let extendsName;\n        let sys = rule.system || \"symbolic\";\n        const extMatch = /^extends\\s+(\\S+)/.exec(sys);\n        if (extMatch) {\n          extendsName = extMatch[1];\n          sys = \"extends\";\n        } else {\n          const sysMatch = /^(cyclic|numeric|alphabetic|symbolic|fixed|additive)\\b/.exec(sys);\n          sys = sysMatch ? sysMatch[1] : \"symbolic\";\n        }\n        const symbols = rule.symbols ? _parseStringList(rule.symbols) : [];\n        const additiveSymbols = rule.additiveSymbols ? _parseAdditiveSymbols(rule.additiveSymbols) : [];\n        const prefix = rule.prefix ? _parseStringList(rule.prefix)[0] ?? \"\" : \"\";\n        const suffix = rule.suffix ? _parseStringList(rule.suffix)[0] ?? \". \" : \". \";\n        const negativeRaw = rule.negative;\n        let negPrefix = \"-\";\n        let negSuffix = \"\";\n        if (negativeRaw) {\n          const nlist = _parseStringList(negativeRaw);\n          negPrefix = nlist[0] ?? \"-\";\n          if (nlist.length > 1) negSuffix = nlist[1];\n        }\n        let padLen = 0;\n        let padSym = \"\";\n        if (rule.pad) {\n          const pm = /^\\s*(\\d+)\\s+(.+)$/.exec(rule.pad);\n          if (pm != null) {\n            padLen = parseInt(pm[1], 10);\n            padSym = _parseStringList(pm[2])[0] ?? \"\";\n          }\n        }\n        let rangeLo = -Infinity;\n        let rangeHi = Infinity;\n        if (rule.range && rule.range !== \"auto\") {\n          const rm = /(-?\\d+|infinite)\\s+(-?\\d+|infinite)/.exec(rule.range);\n          if (rm != null) {\n            rangeLo = rm[1] === \"infinite\" ? -Infinity : parseInt(rm[1], 10);\n            rangeHi = rm[2] === \"infinite\" ? Infinity : parseInt(rm[2], 10);\n          }\n        }\n        const fallback = rule.fallback || \"decimal\";\n        counterStyles[name] = { system: sys, symbols, additiveSymbols, prefix, suffix, negPrefix, negSuffix, padLen, padSym, rangeLo, rangeHi, fallback, extendsName };\n      } else if (rule.cssRules) {\n        _walkRulesForCounterStyles(rule.cssRules);\n      }\n    }\n  }\n  return (doc) => {\n    const _doc = doc || document;\n    for (const sheet of Array.from(_doc.styleSheets)) {\n      try {\n        _walkRulesForCounterStyles(sheet.cssRules);\n      } catch (e) {\n      }\n    }\n  };\n};\n\n// src/capture/svg-affine-freeze.ts\nfunction isFiniteSvgAffine(matrix) {\n  return matrix != null && Number.isFinite(matrix.a) && Number.isFinite(matrix.b) && Number.isFinite(matrix.c) && Number.isFinite(matrix.d) && Number.isFinite(matrix.e) && Number.isFinite(matrix.f);\n}\nfunction multiplySvgAffine(left, right) {\n  return {\n    a: left.a * right.a + left.c * right.b,\n    b: left.b * right.a + left.d * right.b,\n    c: left.a * right.c + left.c * right.d,\n    d: left.b * right.c + left.d * right.d,\n    e: left.a * right.e + left.c * right.f + left.e,\n    f: left.b * right.e + left.d * right.f + left.f\n  };\n}\nfunction invertSvgAffine(matrix) {\n  if (!isFiniteSvgAffine(matrix)) return null;\n  const determinant = matrix.a * matrix.d - matrix.b * matrix.c;\n  if (!Number.isFinite(determinant) || determinant === 0) return null;\n  const inverse = {\n    a: matrix.d / determinant,\n    b: -matrix.b / determinant,\n    c: -matrix.c / determinant,\n    d: matrix.a / determinant,\n    e: (matrix.c * matrix.f - matrix.d * matrix.e) / determinant,\n    f: (matrix.b * matrix.e - matrix.a * matrix.f) / determinant\n  };\n  return isFiniteSvgAffine(inverse) ? inverse : null;\n}\nfunction deriveSvgAffineFreeze(usedCtm, parentCtm, neutralCtm) {\n  if (!isFiniteSvgAffine(usedCtm) || !isFiniteSvgAffine(parentCtm) || !isFiniteSvgAffine(neutralCtm)) {\n    return null;\n  }\n  const parentInverse = invertSvgAffine(parentCtm);\n  if (parentInverse == null) return null;\n  const usedLocal = multiplySvgAffine(parentInverse, usedCtm);\n  const neutralLocal = multiplySvgAffine(parentInverse, neutralCtm);\n  const neutralInverse = invertSvgAffine(neutralLocal);\n  if (neutralInverse == null) return null;\n  const frozen = multiplySvgAffine(usedLocal, neutralInverse);\n  if (invertSvgAffine(usedLocal) == null || invertSvgAffine(frozen) == null) return null;\n  return { usedLocal, neutralLocal, frozen };\n}\nfunction serializeSvgNumber(value) {\n  return Object.is(value, -0) ? \"0\" : String(value);\n}\nfunction serializeSvgAffine(matrix) {\n  if (!isFiniteSvgAffine(matrix)) return null;\n  return `matrix(${serializeSvgNumber(matrix.a)} ${serializeSvgNumber(matrix.b)} ${serializeSvgNumber(matrix.c)} ${serializeSvgNumber(matrix.d)} ${serializeSvgNumber(matrix.e)} ${serializeSvgNumber(matrix.f)})`;\n}\nfunction svgAffineMaxPointError(left, right, points = [[0, 0], [1, 0], [0, 1]]) {\n  if (!isFiniteSvgAffine(left) || !isFiniteSvgAffine(right)) return Number.POSITIVE_INFINITY;\n  let max = 0;\n  for (const [x, y] of points) {\n    const lx = left.a * x + left.c * y + left.e;\n    const ly = left.b * x + left.d * y + left.f;\n    const rx = right.a * x + right.c * y + right.e;\n    const ry = right.b * x + right.d * y + right.f;\n    max = Math.max(max, Math.hypot(lx - rx, ly - ry));\n  }\n  return max;\n}\n\n// src/capture/script/walker/inline-svg.ts\nvar captureInlineSvg = (el, cs, warn, sel) => {\n  const svgFill = cs.fill;\n  const svgStroke = cs.stroke;\n  const svgStrokeWidth = cs.strokeWidth;\n  const svgFontFamily = cs.fontFamily;\n  const clone = el.cloneNode(true);\n  var _affineFreezeFailure = null;\n  const _affineFreezeRecords = [];\n  const _frozenByClone = /* @__PURE__ */ new WeakMap();\n  const _transformProperties = /* @__PURE__ */ new Set([\n    \"transform\",\n    \"transform-origin\",\n    \"transform-box\",\n    \"translate\",\n    \"rotate\",\n    \"scale\",\n    \"offset\",\n    \"offset-path\",\n    \"offset-distance\",\n    \"offset-position\",\n    \"offset-anchor\",\n    \"offset-rotate\"\n  ]);\n  const _matrixFrom = (matrix) => matrix == null ? null : {\n    a: Number(matrix.a),\n    b: Number(matrix.b),\n    c: Number(matrix.c),\n    d: Number(matrix.d),\n    e: Number(matrix.e),\n    f: Number(matrix.f)\n  };\n  const _nearestCtmParent = (node) => {\n    var parent = node.parentElement;\n    while (parent != null && typeof parent.getCTM !== \"function\") parent = parent.parentElement;\n    return parent;\n  };\n  const _hasTransformSignal = (node, style) => {\n    if (node.hasAttribute && node.hasAttribute(\"transform\")) return true;\n    for (const prop of [\"transform\", \"translate\", \"rotate\", \"scale\", \"offset-path\"]) {\n      const value = style.getPropertyValue(prop).trim();\n      if (value !== \"\" && value !== \"none\") return true;\n    }\n    for (const child of node.children || []) {\n      const name = (child.localName || \"\").toLowerCase();\n      const attribute = (child.getAttribute && child.getAttribute(\"attributeName\") || \"\").toLowerCase();\n      if (name === \"animatemotion\" || name === \"animatetransform\" || (name === \"animate\" || name === \"set\") && attribute === \"transform\") return true;\n    }\n    return false;\n  };\n  const _neutralizeProbeTransform = (probe) => {\n    if (probe.style == null) return;\n    probe.style.setProperty(\"transform\", \"none\", \"important\");\n    probe.style.setProperty(\"translate\", \"none\", \"important\");\n    probe.style.setProperty(\"rotate\", \"none\", \"important\");\n    probe.style.setProperty(\"scale\", \"none\", \"important\");\n    probe.style.setProperty(\"offset-path\", \"none\", \"important\");\n    probe.style.setProperty(\"animation\", \"none\", \"important\");\n    probe.style.setProperty(\"transition\", \"none\", \"important\");\n    probe.style.setProperty(\"visibility\", \"hidden\", \"important\");\n    probe.style.setProperty(\"opacity\", \"0\", \"important\");\n    probe.style.setProperty(\"pointer-events\", \"none\", \"important\");\n  };\n  const _cleanCloneTransformOwner = (node, serialized) => {\n    node.setAttribute(\"transform\", serialized);\n    if (node.style != null) {\n      for (const prop of _transformProperties) node.style.removeProperty(prop);\n    }\n  };\n  const _freezeUsedAffine = (origNode, cloneNode, ocs) => {\n    if (_affineFreezeFailure != null || !_hasTransformSignal(origNode, ocs)) return;\n    if (typeof origNode.getCTM !== \"function\") {\n      _affineFreezeFailure = \"transformed SVG node does not expose getCTM()\";\n      return;\n    }\n    const parent = _nearestCtmParent(origNode);\n    if (parent == null || typeof parent.getCTM !== \"function\") {\n      _affineFreezeFailure = \"transformed SVG node has no correlatable SVG parent CTM\";\n      return;\n    }\n    var usedCtm = null;\n    var parentCtm = null;\n    try {\n      usedCtm = _matrixFrom(origNode.getCTM());\n      parentCtm = _matrixFrom(parent.getCTM());\n    } catch (e) {\n      _affineFreezeFailure = \"Blink-used parent-relative affine matrix could not be read\";\n      return;\n    }\n    var probe = null;\n    var neutralCtm = null;\n    try {\n      probe = cloneNode.cloneNode(false);\n      _neutralizeProbeTransform(probe);\n      if (probe.setAttribute) probe.setAttribute(\"aria-hidden\", \"true\");\n      origNode.parentElement.appendChild(probe);\n      neutralCtm = _matrixFrom(probe.getCTM && probe.getCTM());\n    } catch (e) {\n      neutralCtm = null;\n    } finally {\n      if (probe != null && probe.remove) probe.remove();\n    }\n    const freeze = usedCtm != null && parentCtm != null && neutralCtm != null ? deriveSvgAffineFreeze(usedCtm, parentCtm, neutralCtm) : null;\n    const serialized = freeze == null ? null : serializeSvgAffine(freeze.frozen);\n    if (freeze == null || serialized == null) {\n      _affineFreezeFailure = \"Blink-used parent-relative affine matrix was unavailable or singular\";\n      return;\n    }\n    _cleanCloneTransformOwner(cloneNode, serialized);\n    var points = [[0, 0], [1, 0], [0, 1]];\n    try {\n      const bbox = origNode.getBBox();\n      if (bbox != null && [bbox.x, bbox.y, bbox.width, bbox.height].every(Number.isFinite)) {\n        points = [[bbox.x, bbox.y], [bbox.x + bbox.width, bbox.y], [bbox.x, bbox.y + bbox.height], [bbox.x + bbox.width, bbox.y + bbox.height]];\n      }\n    } catch (e) {\n    }\n    const record = { cloneNode, expected: freeze.usedLocal, frozen: freeze.frozen, points, serialized, skip: false };\n    _affineFreezeRecords.push(record);\n    _frozenByClone.set(cloneNode, record);\n  };\n  const _unresolvedCssExprRe = /\\b(?:var|calc|env|attr)\\s*\\(/;\n  function _isUnresolvedCssExpr(v) {\n    return v != null && _unresolvedCssExprRe.test(v);\n  }\n  function _hasConcreteAttr(node, attr) {\n    return node.hasAttribute(attr) && !_isUnresolvedCssExpr(node.getAttribute(attr));\n  }\n  if (svgFill && svgFill !== \"\" && !_hasConcreteAttr(el, \"fill\")) clone.setAttribute(\"fill\", svgFill);\n  if (svgStroke && svgStroke !== \"\" && svgStroke !== \"none\" && !_hasConcreteAttr(el, \"stroke\")) clone.setAttribute(\"stroke\", svgStroke);\n  if (svgStrokeWidth && svgStrokeWidth !== \"\" && !_hasConcreteAttr(el, \"stroke-width\")) clone.setAttribute(\"stroke-width\", svgStrokeWidth);\n  if (svgFontFamily && svgFontFamily !== \"\" && !el.hasAttribute(\"font-family\")) {\n    clone.setAttribute(\"font-family\", svgFontFamily);\n  }\n  const svgOverflow = cs.getPropertyValue(\"overflow\").trim();\n  if (svgOverflow !== \"\") clone.style.setProperty(\"overflow\", svgOverflow);\n  const _bakeSvgAttrs = [\"fill\", \"stroke\", \"stroke-width\", \"stroke-dasharray\", \"stroke-linecap\", \"stroke-linejoin\", \"stroke-opacity\", \"fill-opacity\", \"opacity\"];\n  const _svgGeomAttrsByTag = {\n    circle: [\"cx\", \"cy\", \"r\"],\n    ellipse: [\"cx\", \"cy\", \"rx\", \"ry\"],\n    rect: [\"x\", \"y\", \"width\", \"height\", \"rx\", \"ry\"],\n    image: [\"x\", \"y\", \"width\", \"height\"],\n    foreignobject: [\"x\", \"y\", \"width\", \"height\"],\n    use: [\"x\", \"y\", \"width\", \"height\"],\n    svg: [\"x\", \"y\", \"width\", \"height\"],\n    path: [\"d\"]\n  };\n  const _bakeSvgMaskProps = [\"mask-image\", \"mask-origin\", \"mask-clip\", \"mask-position\", \"mask-size\", \"mask-repeat\", \"mask-composite\", \"mask-mode\"];\n  const _walkBake = (origNode, cloneNode) => {\n    if (origNode.nodeType !== 1) return;\n    const ns = origNode.namespaceURI;\n    if (ns === \"http://www.w3.org/2000/svg\" && origNode !== el) {\n      const ocs = window.getComputedStyle(origNode);\n      const _usesCurrentColor = (camel) => {\n        const baseVal = ocs[camel];\n        if (baseVal !== ocs.color) return false;\n        const savedColor = origNode.style.color;\n        origNode.style.color = \"rgb(1, 2, 3)\";\n        const probeCs = window.getComputedStyle(origNode);\n        const matches = probeCs[camel] === probeCs.color;\n        origNode.style.color = savedColor;\n        return matches;\n      };\n      for (const attr of _bakeSvgAttrs) {\n        const camel = attr.replace(/-([a-z])/g, (_, c) => c.toUpperCase());\n        const val = ocs[camel];\n        if (val != null && val !== \"\" && !_hasConcreteAttr(origNode, attr)) {\n          const preserveCurrent = (attr === \"fill\" || attr === \"stroke\") && _usesCurrentColor(camel);\n          cloneNode.setAttribute(attr, preserveCurrent ? \"currentColor\" : val);\n        }\n      }\n      const geomAttrs = _svgGeomAttrsByTag[(origNode.localName || \"\").toLowerCase()] || [];\n      for (const gattr of geomAttrs) {\n        let smilOwnsValue = false;\n        for (const child of origNode.children) {\n          if ((child.localName || \"\").toLowerCase() === \"animate\" && child.getAttribute(\"attributeName\") === gattr) {\n            smilOwnsValue = true;\n            break;\n          }\n        }\n        if (smilOwnsValue) continue;\n        let gval = ocs.getPropertyValue(gattr);\n        if (gval == null) continue;\n        gval = gval.trim();\n        if (gval === \"\" || gval === \"auto\" || gval === \"none\" || gval === \"normal\") continue;\n        if (gattr === \"d\") {\n          const m = /^path\\(\\s*(?:\"([^\"]*)\"|'([^']*)')\\s*\\)$/.exec(gval);\n          if (m) gval = m[1] != null ? m[1] : m[2];\n          else continue;\n        } else if (/^-?\\d+(?:\\.\\d+)?px$/.test(gval)) {\n          gval = gval.slice(0, -2);\n        }\n        const sourceVal = origNode.getAttribute(gattr);\n        if (sourceVal != null && !_isUnresolvedCssExpr(sourceVal) && sourceVal.trim() === gval) continue;\n        cloneNode.setAttribute(gattr, gval);\n      }\n      const computedClipPath = ocs.getPropertyValue(\"clip-path\").trim();\n      if (computedClipPath !== \"\" && computedClipPath !== \"none\") {\n        cloneNode.style.setProperty(\"clip-path\", computedClipPath);\n      }\n      const computedFilter = ocs.getPropertyValue(\"filter\").trim();\n      if (computedFilter !== \"\" && computedFilter !== \"none\") {\n        cloneNode.style.setProperty(\"filter\", computedFilter);\n      }\n      const computedOverflow = ocs.getPropertyValue(\"overflow\").trim();\n      if (computedOverflow !== \"\" && computedOverflow !== \"visible\") {\n        cloneNode.style.setProperty(\"overflow\", computedOverflow);\n      }\n      const computedMaskImage = ocs.getPropertyValue(\"mask-image\").trim();\n      if (computedMaskImage !== \"\" && computedMaskImage !== \"none\") {\n        for (const prop of _bakeSvgMaskProps) {\n          const value = ocs.getPropertyValue(prop).trim();\n          if (value !== \"\") cloneNode.style.setProperty(prop, value);\n        }\n      }\n      if (origNode.tagName && origNode.tagName.toLowerCase() === \"mask\") {\n        const mt = ocs.maskType || ocs.getPropertyValue(\"mask-type\");\n        if (mt === \"alpha\" || mt === \"luminance\") {\n          if (!origNode.hasAttribute(\"mask-type\") || origNode.getAttribute(\"mask-type\") !== mt) {\n            cloneNode.setAttribute(\"mask-type\", mt);\n          }\n        }\n      }\n      _freezeUsedAffine(origNode, cloneNode, ocs);\n    }\n    const oChildren = origNode.children;\n    const cChildren = cloneNode.children;\n    const n = Math.min(oChildren.length, cChildren.length);\n    for (let i = 0; i < n; i++) _walkBake(oChildren[i], cChildren[i]);\n  };\n  _walkBake(el, clone);\n  const _svgNS = \"http://www.w3.org/2000/svg\";\n  const _xlinkNS = \"http://www.w3.org/1999/xlink\";\n  const _resolveUseRefs = (root, depth) => {\n    if (depth > 5) return;\n    var uses = root.querySelectorAll ? root.querySelectorAll(\"use\") : [];\n    for (var ui = 0; ui < uses.length; ui++) {\n      var useEl = uses[ui];\n      var href = useEl.getAttribute(\"href\");\n      if (href == null || href === \"\") href = useEl.getAttributeNS(_xlinkNS, \"href\") || \"\";\n      if (href.charAt(0) !== \"#\") continue;\n      var targetId = href.slice(1);\n      var target = document.getElementById(targetId);\n      if (target == null) continue;\n      if (target.namespaceURI !== _svgNS) continue;\n      if (typeof target.getAnimations === \"function\") {\n        try {\n          var anims = target.getAnimations({ subtree: true });\n          if (anims != null && anims.length > 0) {\n            warn(sel, \"inline-svg\", '<use href=\"#' + targetId + '\"> resolved to a CSS-animated subtree; the inlined SVG carries the t=0 computed paint state (no animation in the output)');\n          }\n        } catch (e) {\n        }\n      }\n      var ux = parseFloat(useEl.getAttribute(\"x\") || \"0\") || 0;\n      var uy = parseFloat(useEl.getAttribute(\"y\") || \"0\") || 0;\n      var uw = useEl.getAttribute(\"width\");\n      var uh = useEl.getAttribute(\"height\");\n      var targetTag = target.tagName.toLowerCase();\n      var replacement;\n      if (targetTag === \"symbol\") {\n        var vb = target.getAttribute(\"viewBox\") || \"\";\n        var par = target.getAttribute(\"preserveAspectRatio\") || \"\";\n        var innerSvg = document.createElementNS(_svgNS, \"svg\");\n        if (ux !== 0) innerSvg.setAttribute(\"x\", String(ux));\n        if (uy !== 0) innerSvg.setAttribute(\"y\", String(uy));\n        if (uw != null) innerSvg.setAttribute(\"width\", uw);\n        if (uh != null) innerSvg.setAttribute(\"height\", uh);\n        if (vb !== \"\") innerSvg.setAttribute(\"viewBox\", vb);\n        if (par !== \"\") innerSvg.setAttribute(\"preserveAspectRatio\", par);\n        for (var ci = 0; ci < target.children.length; ci++) {\n          var clonedChild = target.children[ci].cloneNode(true);\n          innerSvg.appendChild(clonedChild);\n          _walkBake(target.children[ci], clonedChild);\n        }\n        var useTransformAttrSym = useEl.getAttribute(\"transform\") || \"\";\n        if (useTransformAttrSym !== \"\") {\n          replacement = document.createElementNS(_svgNS, \"g\");\n          replacement.setAttribute(\"transform\", useTransformAttrSym);\n          replacement.appendChild(innerSvg);\n        } else {\n          replacement = innerSvg;\n        }\n      } else {\n        replacement = document.createElementNS(_svgNS, \"g\");\n        var useTransformAttr = useEl.getAttribute(\"transform\") || \"\";\n        var translatePart = ux !== 0 || uy !== 0 ? \"translate(\" + ux + \",\" + uy + \")\" : \"\";\n        var composedTransform = (useTransformAttr + \" \" + translatePart).trim();\n        if (composedTransform !== \"\") {\n          replacement.setAttribute(\"transform\", composedTransform);\n        }\n        var clonedTarget = target.cloneNode(true);\n        if (clonedTarget.removeAttribute) clonedTarget.removeAttribute(\"id\");\n        replacement.appendChild(clonedTarget);\n        _walkBake(target, clonedTarget);\n        if (clonedTarget.tagName && clonedTarget.tagName.toLowerCase() === \"svg\" && clonedTarget.removeAttribute) {\n          if (!_hasConcreteAttr(target, \"width\") && /^0(?:\\.0+)?$/.test(clonedTarget.getAttribute(\"width\") || \"\")) {\n            clonedTarget.removeAttribute(\"width\");\n          }\n          if (!_hasConcreteAttr(target, \"height\") && /^0(?:\\.0+)?$/.test(clonedTarget.getAttribute(\"height\") || \"\")) {\n            clonedTarget.removeAttribute(\"height\");\n          }\n        }\n      }\n      const useFreeze = _frozenByClone.get(useEl);\n      if (useFreeze != null) {\n        useFreeze.skip = true;\n        var replacementExpected = useFreeze.frozen;\n        if (targetTag !== \"symbol\" && (ux !== 0 || uy !== 0)) {\n          replacementExpected = multiplySvgAffine(replacementExpected, {\n            a: 1,\n            b: 0,\n            c: 0,\n            d: 1,\n            e: ux,\n            f: uy\n          });\n        }\n        const replacementSerialized = serializeSvgAffine(replacementExpected);\n        if (replacementSerialized == null) {\n          _affineFreezeFailure = _affineFreezeFailure || \"inlined use transform could not be serialized\";\n        } else {\n          replacement.setAttribute(\"transform\", replacementSerialized);\n        }\n        _affineFreezeRecords.push({\n          cloneNode: replacement,\n          expected: replacementExpected,\n          frozen: replacementExpected,\n          points: useFreeze.points,\n          serialized: replacement.getAttribute(\"transform\") || \"\",\n          skip: false\n        });\n      }\n      var _useAttrs = [\"fill\", \"stroke\", \"stroke-width\", \"opacity\", \"class\", \"style\"];\n      for (var ai = 0; ai < _useAttrs.length; ai++) {\n        var av = useEl.getAttribute(_useAttrs[ai]);\n        if (av != null && av !== \"\") replacement.setAttribute(_useAttrs[ai], av);\n      }\n      useEl.parentNode.replaceChild(replacement, useEl);\n      _resolveUseRefs(replacement, depth + 1);\n    }\n  };\n  _resolveUseRefs(clone, 0);\n  for (const animation of Array.from(clone.querySelectorAll ? clone.querySelectorAll(\"animateMotion, animateTransform, animate[attributeName], set[attributeName]\") : [])) {\n    const name = (animation.localName || \"\").toLowerCase();\n    const attribute = (animation.getAttribute(\"attributeName\") || \"\").toLowerCase();\n    if (name === \"animatemotion\" || name === \"animatetransform\" || attribute === \"transform\") animation.remove();\n  }\n  const _sanitizeClonedTransformCss = () => {\n    for (const styleNode of Array.from(clone.querySelectorAll ? clone.querySelectorAll(\"style\") : [])) {\n      const cssText = styleNode.textContent || \"\";\n      if (!/(?:transform|translate|rotate|scale|offset(?:-|\\s*:))/i.test(cssText)) continue;\n      if (/@import\\b/i.test(cssText) || typeof CSSStyleSheet !== \"function\") {\n        _affineFreezeFailure = _affineFreezeFailure || \"transform-bearing cloned stylesheet could not be inspected\";\n        continue;\n      }\n      try {\n        const sheet = new CSSStyleSheet();\n        sheet.replaceSync(cssText);\n        const cleanRules = (rules) => {\n          for (const rule of Array.from(rules || [])) {\n            if (rule.style != null) {\n              for (const prop of Array.from(rule.style)) {\n                const normalized = prop.toLowerCase().replace(/^-webkit-/, \"\");\n                if (_transformProperties.has(normalized)) rule.style.removeProperty(prop);\n              }\n            }\n            if (rule.cssRules != null) cleanRules(rule.cssRules);\n          }\n        };\n        cleanRules(sheet.cssRules);\n        styleNode.textContent = Array.from(sheet.cssRules).map((rule) => rule.cssText).join(\"\\n\");\n      } catch (e) {\n        _affineFreezeFailure = _affineFreezeFailure || \"transform-bearing cloned stylesheet failed CSSOM normalization\";\n      }\n    }\n  };\n  _sanitizeClonedTransformCss();\n  const _validateFrozenAffines = () => {\n    if (_affineFreezeFailure != null || _affineFreezeRecords.length === 0) return;\n    const host = document.createElement(\"div\");\n    host.setAttribute(\"aria-hidden\", \"true\");\n    host.style.setProperty(\"all\", \"initial\", \"important\");\n    host.style.setProperty(\"position\", \"fixed\", \"important\");\n    host.style.setProperty(\"left\", \"-100000px\", \"important\");\n    host.style.setProperty(\"top\", \"-100000px\", \"important\");\n    host.style.setProperty(\"visibility\", \"hidden\", \"important\");\n    var shadow = null;\n    try {\n      shadow = host.attachShadow({ mode: \"closed\" });\n      shadow.appendChild(clone);\n      (document.body || document.documentElement).appendChild(host);\n      for (const record of _affineFreezeRecords) {\n        if (record.skip || !record.cloneNode.isConnected) continue;\n        const parent = _nearestCtmParent(record.cloneNode);\n        const parentCtm = _matrixFrom(parent && parent.getCTM && parent.getCTM());\n        const cloneCtm = _matrixFrom(record.cloneNode.getCTM && record.cloneNode.getCTM());\n        const parentInverse = parentCtm == null ? null : invertSvgAffine(parentCtm);\n        const actual = parentInverse == null || cloneCtm == null ? null : multiplySvgAffine(parentInverse, cloneCtm);\n        if (actual == null || svgAffineMaxPointError(actual, record.expected, record.points) > 1 / 256) {\n          _affineFreezeFailure = \"serialized SVG affine did not correlate with Blink-used local geometry\";\n          break;\n        }\n      }\n    } catch (e) {\n      _affineFreezeFailure = \"serialized SVG affine could not be validated in an isolated clone\";\n    } finally {\n      host.remove();\n    }\n  };\n  _validateFrozenAffines();\n  var _hostColor = cs.color;\n  var _substCurrentColor = (node) => {\n    if (node.nodeType !== 1) return;\n    var fa = node.getAttribute && node.getAttribute(\"fill\");\n    if (fa != null && /^currentcolor$/i.test(fa)) node.setAttribute(\"fill\", _hostColor);\n    var sa = node.getAttribute && node.getAttribute(\"stroke\");\n    if (sa != null && /^currentcolor$/i.test(sa)) node.setAttribute(\"stroke\", _hostColor);\n    for (var ci = 0; ci < node.children.length; ci++) _substCurrentColor(node.children[ci]);\n  };\n  _substCurrentColor(clone);\n  if (_affineFreezeFailure != null) {\n    warn(sel, \"inline-svg\", _affineFreezeFailure + \"; promoted the outer inline SVG to Chromium raster ownership\");\n  }\n  return { content: clone.outerHTML, affineFreezeFailed: _affineFreezeFailure != null };\n};\n\n// src/capture/script/walker/fieldset-legend.ts\nvar computeFieldsetLegendBox = (el, tag, rect, vp) => {\n  let fieldsetLegendNotch;\n  let fsX = rect.left - vp.x;\n  let fsY = rect.top - vp.y;\n  let fsW = rect.width;\n  let fsH = rect.height;\n  if (tag === \"fieldset\") {\n    for (let i = 0; i < el.children.length; i++) {\n      const ch = el.children[i];\n      if (ch.tagName.toLowerCase() !== \"legend\") continue;\n      const lr = ch.getBoundingClientRect();\n      if (lr.height > 0 && lr.width > 0 && Math.abs(lr.top - rect.top) < 2) {\n        const inset = lr.height / 2;\n        fsY = rect.top - vp.y + inset;\n        fsH = rect.height - inset;\n        fieldsetLegendNotch = { x: lr.left - vp.x, y: lr.top - vp.y, w: lr.width, h: lr.height };\n      }\n      break;\n    }\n  }\n  return { x: fsX, y: fsY, width: fsW, height: fsH, fieldsetLegendNotch };\n};\n\n// src/capture/script/walker/fragmentation.ts\nvar detectInlineFragments = (el, cs, vp, captured) => {\n  var _ownCount = parseInt(cs.columnCount, 10);\n  var _ownColumnWidth = parseFloat(cs.columnWidth || \"\");\n  var _ownGap = parseFloat(cs.columnGap || \"\");\n  if (!Number.isFinite(_ownGap)) _ownGap = parseFloat(cs.fontSize || \"16\") || 16;\n  var _ruleWidth = parseFloat(cs.columnRuleWidth || \"0\") || 0;\n  var _ruleStyle = cs.columnRuleStyle || \"none\";\n  if (_ruleWidth > 0 && _ruleStyle !== \"none\" && _ruleStyle !== \"hidden\") {\n    var _box = el.getBoundingClientRect();\n    var _contentLeft = _box.left + (parseFloat(cs.borderLeftWidth) || 0) + (parseFloat(cs.paddingLeft) || 0);\n    var _contentRight = _box.right - (parseFloat(cs.borderRightWidth) || 0) - (parseFloat(cs.paddingRight) || 0);\n    var _contentTop = _box.top + (parseFloat(cs.borderTopWidth) || 0) + (parseFloat(cs.paddingTop) || 0);\n    var _contentBottom = _box.bottom - (parseFloat(cs.borderBottomWidth) || 0) - (parseFloat(cs.paddingBottom) || 0);\n    var _contentWidth = _contentRight - _contentLeft;\n    if (!(Number.isFinite(_ownCount) && _ownCount > 1) && Number.isFinite(_ownColumnWidth) && _ownColumnWidth > 0) {\n      _ownCount = Math.max(1, Math.floor((_contentWidth + _ownGap) / (_ownColumnWidth + _ownGap)));\n    }\n    if (Number.isFinite(_ownCount) && _ownCount > 1 && _contentWidth > 0 && _contentBottom > _contentTop) {\n      var _rows = [];\n      var _rowStart = _contentTop;\n      for (var _si = 0; _si < el.children.length; _si++) {\n        var _span = el.children[_si];\n        var _spanCs = window.getComputedStyle(_span);\n        if (_spanCs.columnSpan !== \"all\") continue;\n        var _spanRect = _span.getBoundingClientRect();\n        var _spanTop = _spanRect.top - (parseFloat(_spanCs.marginTop) || 0);\n        var _spanBottom = _spanRect.bottom + (parseFloat(_spanCs.marginBottom) || 0);\n        if (_spanTop > _rowStart) _rows.push([_rowStart, Math.min(_spanTop, _contentBottom)]);\n        _rowStart = Math.max(_rowStart, _spanBottom);\n      }\n      if (_contentBottom > _rowStart) _rows.push([_rowStart, _contentBottom]);\n      var _columnWidth = (_contentWidth - _ownGap * (_ownCount - 1)) / _ownCount;\n      var _rules = [];\n      for (var _ri = 1; _ri < _ownCount; _ri++) {\n        var _ruleX = _contentLeft + _ri * _columnWidth + (_ri - 0.5) * _ownGap - vp.x;\n        for (var _rsi = 0; _rsi < _rows.length; _rsi++) {\n          if (_rows[_rsi][1] <= _rows[_rsi][0]) continue;\n          _rules.push({\n            x: _ruleX,\n            y1: _rows[_rsi][0] - vp.y,\n            y2: _rows[_rsi][1] - vp.y,\n            width: _ruleWidth,\n            color: cs.columnRuleColor,\n            style: _ruleStyle\n          });\n        }\n      }\n      if (_rules.length > 0) captured.columnRules = _rules;\n    }\n  }\n  var _bgC = captured.styles.backgroundColor;\n  var _hasBg = _bgC != null && _bgC !== \"\" && _bgC !== \"transparent\" && _bgC !== \"rgba(0, 0, 0, 0)\";\n  var _hasBgImage = captured.styles.backgroundImage != null && captured.styles.backgroundImage !== \"\" && captured.styles.backgroundImage !== \"none\";\n  var _hasMaskImage = captured.styles.maskImage != null && captured.styles.maskImage !== \"\" && captured.styles.maskImage !== \"none\";\n  var _btw = parseFloat(captured.styles.borderTopWidth || \"0\") || 0;\n  var _brw = parseFloat(captured.styles.borderRightWidth || \"0\") || 0;\n  var _bbw = parseFloat(captured.styles.borderBottomWidth || \"0\") || 0;\n  var _blw = parseFloat(captured.styles.borderLeftWidth || \"0\") || 0;\n  var _hasBorder = _btw > 0 || _brw > 0 || _bbw > 0 || _blw > 0;\n  var _hasPaint = _hasBg || _hasBgImage || _hasBorder || _hasMaskImage;\n  var _isInline = cs.display === \"inline\";\n  var _isBlockLevel = !_isInline && (cs.display === \"block\" || cs.display === \"list-item\" || cs.display === \"flex\" || cs.display === \"grid\" || cs.display === \"flow-root\" || cs.display === \"inline-block\" || cs.display === \"inline-flex\" || cs.display === \"inline-grid\");\n  var _inMultiColumn = false;\n  if (_isBlockLevel && _hasPaint) {\n    var _a = el.parentElement;\n    while (_a != null) {\n      var _ac = window.getComputedStyle(_a);\n      var _cc = parseInt(_ac.columnCount, 10);\n      var _cw = _ac.columnWidth;\n      if (Number.isFinite(_cc) && _cc > 1 || _cw != null && _cw !== \"auto\" && _cw !== \"\" && _cw !== \"normal\") {\n        _inMultiColumn = true;\n        break;\n      }\n      if (_a === document.body) break;\n      _a = _a.parentElement;\n    }\n  }\n  if (_hasPaint && (_isInline || _inMultiColumn)) {\n    var _cr = el.getClientRects();\n    if (_cr != null && _cr.length > 1) {\n      var _frags = [];\n      for (var _ci = 0; _ci < _cr.length; _ci++) {\n        var _f = _cr[_ci];\n        if (_f.width <= 0 || _f.height <= 0) continue;\n        _frags.push({\n          x: _f.left - vp.x,\n          y: _f.top - vp.y,\n          width: _f.width,\n          height: _f.height\n        });\n      }\n      if (_frags.length > 1) {\n        if (_hasBgImage) {\n          var _writingMode = String(cs.writingMode || \"horizontal-tb\").toLowerCase();\n          var _horizontalWriting = _writingMode === \"horizontal-tb\";\n          var _logicalSizes = [];\n          var _stitchedSize = 0;\n          for (var _gsi = 0; _gsi < _frags.length; _gsi++) {\n            var _logicalSize = _isInline ? _horizontalWriting ? _frags[_gsi].width : _frags[_gsi].height : _horizontalWriting ? _frags[_gsi].height : _frags[_gsi].width;\n            _logicalSizes.push(_logicalSize);\n            _stitchedSize += _logicalSize;\n          }\n          var _consumed = 0;\n          for (var _gfi = 0; _gfi < _frags.length; _gfi++) {\n            var _gf = _frags[_gfi];\n            var _physicalOffsetX = 0;\n            var _physicalOffsetY = 0;\n            if (_isInline) {\n              var _inlineOffset = cs.direction === \"rtl\" ? _stitchedSize - _consumed - _logicalSizes[_gfi] : _consumed;\n              if (_horizontalWriting) _physicalOffsetX = _inlineOffset;\n              else _physicalOffsetY = _inlineOffset;\n            } else if (_horizontalWriting) {\n              _physicalOffsetY = _consumed;\n            } else if (_writingMode === \"vertical-rl\" || _writingMode === \"sideways-rl\") {\n              _physicalOffsetX = _stitchedSize - _consumed - _logicalSizes[_gfi];\n            } else {\n              _physicalOffsetX = _consumed;\n            }\n            _gf.backgroundOffsetInStitchedBox = {\n              x: _physicalOffsetX,\n              y: _physicalOffsetY\n            };\n            _gf.backgroundPositioningArea = {\n              x: _gf.x - _physicalOffsetX,\n              y: _gf.y - _physicalOffsetY,\n              width: _horizontalWriting ? _isInline ? _stitchedSize : _gf.width : _isInline ? _gf.width : _stitchedSize,\n              height: _horizontalWriting ? _isInline ? _gf.height : _stitchedSize : _isInline ? _stitchedSize : _gf.height\n            };\n            _consumed += _logicalSizes[_gfi];\n          }\n        }\n        captured.inlineFragments = _frags;\n        captured.fragmentAxis = _isInline ? \"inline\" : \"block\";\n      }\n    }\n  }\n};\n\n// src/capture/script/walker/lists-counters.ts\nvar createListsCountersHandler = ({ normColor, resolveCounterStyle, isCustomCounterStyle, measureFontMetrics }) => {\n  const captureListsCounters = (el, cs, tag) => {\n    const isListItem = cs.display != null && cs.display.includes(\"list-item\");\n    let listMarkerIntrinsic = void 0;\n    let listItemIndex = void 0;\n    let markerFirstLineDy = void 0;\n    let markerFirstLineHeight = void 0;\n    if (isListItem) {\n      try {\n        const liTop = el.getBoundingClientRect().top;\n        const range = document.createRange();\n        range.selectNodeContents(el);\n        const rects = range.getClientRects();\n        if (rects.length > 0) {\n          markerFirstLineDy = rects[0].top - liTop;\n          markerFirstLineHeight = rects[0].height;\n        }\n      } catch (e) {\n      }\n      if (cs.listStyleImage && cs.listStyleImage !== \"none\") {\n        const u = /^url\\((?:\"|')?([^\"')]+)/.exec(cs.listStyleImage);\n        if (u != null) {\n          const img = new Image();\n          img.src = u[1];\n          if (img.naturalWidth > 0) listMarkerIntrinsic = { w: img.naturalWidth, h: img.naturalHeight };\n        }\n      }\n      const parent = el.parentElement;\n      if (parent != null) {\n        if (tag === \"li\") {\n          const siblings = Array.from(parent.children).filter((c) => c.tagName.toLowerCase() === \"li\");\n          const parentTag = parent.tagName.toLowerCase();\n          const reversed = parentTag === \"ol\" && parent.hasAttribute(\"reversed\");\n          let start = 1;\n          if (parentTag === \"ol\" && parent.hasAttribute(\"start\")) start = parseInt(parent.getAttribute(\"start\"), 10) || 1;\n          if (reversed) start = siblings.length;\n          let cur = start;\n          for (const s of siblings) {\n            if (s.hasAttribute(\"value\")) cur = parseInt(s.getAttribute(\"value\"), 10) || cur;\n            if (s === el) {\n              listItemIndex = cur;\n              break;\n            }\n            cur += reversed ? -1 : 1;\n          }\n        } else {\n          let cur = 1;\n          for (const s of parent.children) {\n            const sd = window.getComputedStyle(s).display;\n            if (sd != null && sd.includes(\"list-item\")) {\n              if (s === el) {\n                listItemIndex = cur;\n                break;\n              }\n              cur += 1;\n            }\n          }\n        }\n      }\n    }\n    const markerCs = isListItem ? window.getComputedStyle(el, \"::marker\") : null;\n    let markerContent = markerCs ? markerCs.content : void 0;\n    if (isListItem && resolveCounterStyle != null && listItemIndex != null) {\n      const lsType = cs.listStyleType;\n      const isCustom = lsType != null && isCustomCounterStyle != null && isCustomCounterStyle(lsType);\n      const noAuthorContent = markerContent == null || markerContent === \"\" || markerContent === \"normal\";\n      if (isCustom && noAuthorContent) {\n        const resolved = resolveCounterStyle(lsType, listItemIndex);\n        if (resolved != null) {\n          markerContent = '\"' + resolved.replace(/\\\\/g, \"\\\\\\\\\").replace(/\"/g, '\\\\\"') + '\"';\n        }\n      }\n    }\n    return {\n      listMarkerIntrinsic,\n      listItemIndex,\n      markerColor: markerCs ? normColor(markerCs.color) : void 0,\n      markerFontWeight: markerCs ? markerCs.fontWeight : void 0,\n      markerFontSize: markerCs ? markerCs.fontSize : void 0,\n      markerFontAscent: markerCs ? measureFontMetrics(markerCs).ascent : void 0,\n      markerContent,\n      markerFontFamily: markerCs ? markerCs.fontFamily : void 0,\n      markerFirstLineDy,\n      markerFirstLineHeight\n    };\n  };\n  return { captureListsCounters };\n};\n\n// src/capture/script/walker/replaced-elements.ts\nvar createReplacedElementsHandler = ({ vp }) => {\n  let _replacedIdx = 0;\n  const handleReplacedElement = (el, cs, tag, rect, captured, bordersOnlyCell) => {\n    if (bordersOnlyCell || cs.display === \"none\" || rect.width <= 0 || rect.height <= 0) return;\n    const isCustomEl = tag.indexOf(\"-\") > 0;\n    const hasOpenShadow = isCustomEl && el.shadowRoot != null;\n    const customElNeedsSnapshot = isCustomEl && hasOpenShadow;\n    const iframeRecursed = tag === \"iframe\" && captured._iframeRecursed === true;\n    if (tag === \"iframe\" && !iframeRecursed || tag === \"canvas\" || tag === \"video\" || tag === \"object\" || tag === \"embed\" || customElNeedsSnapshot) {\n      const { left: bl, right: br, top: bt, bottom: bb } = sideWidths(cs, \"border\", \"Width\");\n      const pl = parseFloat(cs.paddingLeft) || 0;\n      const pr = parseFloat(cs.paddingRight) || 0;\n      const pt = parseFloat(cs.paddingTop) || 0;\n      const pb = parseFloat(cs.paddingBottom) || 0;\n      const cw = rect.width - bl - br - pl - pr;\n      const ch = rect.height - bt - bb - pt - pb;\n      if (cw > 0 && ch > 0) {\n        const rid = \"dr\" + _replacedIdx++;\n        el.setAttribute(\"data-domotion-rid\", rid);\n        captured.replacedSnapshot = {\n          x: rect.left - vp.x + bl + pl,\n          y: rect.top - vp.y + bt + pt,\n          width: cw,\n          height: ch,\n          rid\n        };\n      }\n    }\n    if (captured.replacedSnapshot != null || captured.imageSrc != null) return;\n    const ti = parseFloat(cs.textIndent) || 0;\n    const ovX = cs.overflowX === \"hidden\" || cs.overflow === \"hidden\";\n    const hasBgImage = hasCssValue(cs.backgroundImage);\n    const phark = ti <= -1e3;\n    const modern = ti < 0 && ovX && cs.whiteSpace === \"nowrap\";\n    if ((phark || modern) && hasBgImage) {\n      const rid = \"dr\" + _replacedIdx++;\n      el.setAttribute(\"data-domotion-rid\", rid);\n      const titleText = (el.getAttribute && el.getAttribute(\"aria-label\") || captured.text || \"\").trim();\n      captured.replacedSnapshot = {\n        x: rect.left - vp.x,\n        y: rect.top - vp.y,\n        width: rect.width,\n        height: rect.height,\n        rid\n      };\n      captured.imageReplacement = { titleText };\n      captured.styles.backgroundImage = void 0;\n      captured.text = \"\";\n      captured.textSegments = void 0;\n    }\n  };\n  return { handleReplacedElement };\n};\n\n// src/capture/script/walker/masks-clips.ts\nvar createMasksClipsHandler = ({ vp, warn }) => {\n  const maskDefs = /* @__PURE__ */ new Map();\n  const maskRasters = /* @__PURE__ */ new Map();\n  const clipPathDefs = /* @__PURE__ */ new Map();\n  let maskRasterIdx = 0;\n  const computeMaskIntrinsic = (el, cs) => {\n    const primed = el && el.__domotionMaskIntrinsic;\n    if (Array.isArray(primed)) return primed;\n    const maskImage = cs.maskImage || cs.webkitMaskImage || \"\";\n    if (maskImage === \"\" || maskImage === \"none\") return [];\n    const layers = [];\n    let depth = 0, start = 0;\n    for (let i = 0; i < maskImage.length; i++) {\n      const ch = maskImage[i];\n      if (ch === \"(\") depth++;\n      else if (ch === \")\") depth--;\n      else if (ch === \",\" && depth === 0) {\n        layers.push(maskImage.slice(start, i));\n        start = i + 1;\n      }\n    }\n    layers.push(maskImage.slice(start));\n    return layers.map((layer) => {\n      const url = extractCssUrl(layer);\n      if (url == null) return null;\n      const image = new Image();\n      image.src = url;\n      const w = image.naturalWidth || 0;\n      const h = image.naturalHeight || 0;\n      return w > 0 && h > 0 ? { w, h, ratio: w / h } : null;\n    });\n  };\n  const discoverMasks = (el, cs, sel) => {\n    if (!cs.mask || cs.mask === \"none\" || cs.mask === \"\") return;\n    const doc = el.ownerDocument || document;\n    const miSrc = cs.maskImage || cs.webkitMaskImage || \"\";\n    const fragMatch = /^url\\(\\s*(?:\"|')?#([^\"')\\s]+)(?:\"|')?\\s*\\)$/i.exec(miSrc);\n    if (fragMatch != null) {\n      const fragId = fragMatch[1];\n      if (!maskDefs.has(fragId)) {\n        const target = doc.getElementById(fragId);\n        if (target != null && target.tagName.toLowerCase() === \"mask\") {\n          maskDefs.set(fragId, { id: fragId, outerHTML: target.outerHTML });\n        } else {\n          warn(sel, \"mask\", 'mask-image fragment \"#' + fragId + '\" did not resolve to an inline <mask> element');\n        }\n      }\n      return;\n    }\n    const extFragMatch = /^url\\(\\s*(?:\"|')?[^\"')#]+#[^\"')\\s]+(?:\"|')?\\s*\\)$/i.exec(miSrc);\n    if (extFragMatch != null) {\n      warn(sel, \"mask\", 'external-file SVG mask-image fragment ref (url(\"./file.svg#id\")) could not be resolved \\u2014 element renders unmasked');\n      return;\n    }\n    const elementMatch = /^element\\(\\s*#([^)\\s]+)\\s*\\)$/i.exec(miSrc);\n    if (elementMatch != null) {\n      const refId = elementMatch[1];\n      if (maskRasters.has(refId)) return;\n      const refTarget = doc.getElementById(refId);\n      if (refTarget == null) {\n        warn(sel, \"mask\", \"mask-image: element(#\" + refId + \") target not found in document\");\n        return;\n      }\n      const refCs = window.getComputedStyle(refTarget);\n      if (refCs.display === \"none\" || refCs.visibility === \"hidden\") {\n        warn(sel, \"mask\", \"mask-image: element(#\" + refId + \") target is display:none / hidden \\u2014 emitting empty mask\");\n        maskRasters.set(refId, null);\n        return;\n      }\n      const refRect = refTarget.getBoundingClientRect();\n      if (refRect.width <= 0 || refRect.height <= 0) {\n        warn(sel, \"mask\", \"mask-image: element(#\" + refId + \") target has zero-area painted box \\u2014 emitting empty mask\");\n        maskRasters.set(refId, null);\n        return;\n      }\n      if (typeof refTarget.getAnimations === \"function\") {\n        try {\n          const anims = refTarget.getAnimations();\n          if (anims != null && anims.length > 0) {\n            warn(sel, \"mask\", \"mask-image: element(#\" + refId + \") target has \" + anims.length + \" active animation(s); the rasterized snapshot is t=0 only\");\n          }\n        } catch (e) {\n        }\n      }\n      const refRid = \"mr\" + maskRasterIdx++;\n      refTarget.setAttribute(\"data-domotion-rid\", refRid);\n      maskRasters.set(refId, {\n        id: refId,\n        rid: refRid,\n        width: refRect.width,\n        height: refRect.height,\n        rect: {\n          x: refRect.left - vp.x,\n          y: refRect.top - vp.y,\n          width: refRect.width,\n          height: refRect.height\n        }\n      });\n      return;\n    }\n    const supported = /^(?:repeating-)?(?:linear|radial)-gradient\\(/i.test(miSrc) || /^url\\(/i.test(miSrc);\n    if (!supported) {\n      warn(sel, \"mask\", \"non-gradient/non-url()/non-element() mask source \\u2014 not emitted\");\n    }\n  };\n  const discoverClipPaths = (el, cs, sel) => {\n    const cp = cs.clipPath;\n    if (!cp || cp === \"none\" || cp === \"\") return;\n    const doc = el.ownerDocument || document;\n    const cpShape = cp.replace(/\\b(?:content-box|padding-box|border-box|margin-box|fill-box|stroke-box|view-box)\\b/i, \"\").trim();\n    const fragMatch = /^url\\(\\s*(?:\"|')?#([^\"')\\s]+)(?:\"|')?\\s*\\)$/i.exec(cpShape);\n    if (fragMatch != null) {\n      const fragId = fragMatch[1];\n      if (!clipPathDefs.has(fragId)) {\n        const target = doc.getElementById(fragId);\n        if (target != null && target.tagName.toLowerCase() === \"clippath\") {\n          const units = (target.getAttribute(\"clipPathUnits\") || \"userSpaceOnUse\").toLowerCase();\n          clipPathDefs.set(fragId, {\n            id: fragId,\n            outerHTML: target.outerHTML,\n            clipPathUnits: units === \"objectboundingbox\" ? \"objectBoundingBox\" : \"userSpaceOnUse\"\n          });\n        } else {\n          warn(sel, \"clip-path\", 'clip-path fragment \"#' + fragId + '\" did not resolve to an inline <clipPath> element');\n        }\n      }\n      return;\n    }\n    const extFragMatch = /^url\\(\\s*(?:\"|')?[^\"')#]+#[^\"')\\s]+(?:\"|')?\\s*\\)$/i.exec(cpShape);\n    if (extFragMatch != null) {\n      warn(sel, \"clip-path\", 'external-file SVG fragment ref (url(\"./file.svg#id\")) could not be resolved \\u2014 element renders unclipped');\n    }\n  };\n  const filterDefs = /* @__PURE__ */ new Map();\n  let urlFilterRasterIdx = 0;\n  const filterContainsConvolveMatrix = (filter, seen) => {\n    if (filter == null || seen.has(filter)) return false;\n    seen.add(filter);\n    const descendants = filter.getElementsByTagName(\"*\");\n    for (let i = 0; i < descendants.length; i++) {\n      if ((descendants[i].localName || \"\").toLowerCase() === \"feconvolvematrix\") return true;\n    }\n    const href = filter.getAttribute(\"href\") || filter.getAttributeNS(\"http://www.w3.org/1999/xlink\", \"href\") || \"\";\n    if (!href.startsWith(\"#\")) return false;\n    const inherited = filter.ownerDocument.getElementById(href.slice(1));\n    return inherited != null && inherited.localName.toLowerCase() === \"filter\" && filterContainsConvolveMatrix(inherited, seen);\n  };\n  const discoverFilters = (el, cs, sel) => {\n    const f = cs.filter;\n    if (!f || f === \"none\" || f === \"\") return void 0;\n    const doc = el.ownerDocument || document;\n    let needsSourceRaster = false;\n    const re = /url\\(\\s*(?:\"|')?#([^\"')\\s]+)(?:\"|')?\\s*\\)/gi;\n    let m;\n    while ((m = re.exec(f)) != null) {\n      const fragId = m[1];\n      const target = doc.getElementById(fragId);\n      if (target != null && target.tagName.toLowerCase() === \"filter\") {\n        if (!filterDefs.has(fragId)) filterDefs.set(fragId, { id: fragId, outerHTML: target.outerHTML });\n        if (el.namespaceURI === \"http://www.w3.org/1999/xhtml\" && filterContainsConvolveMatrix(target, /* @__PURE__ */ new Set())) {\n          needsSourceRaster = true;\n        }\n      } else {\n        warn(sel, \"filter\", 'filter fragment \"#' + fragId + '\" did not resolve to an inline <filter> element');\n      }\n    }\n    if (!needsSourceRaster) return void 0;\n    const token = \"uf\" + urlFilterRasterIdx++;\n    el.setAttribute(\"data-domotion-url-filter-raster\", token);\n    return token;\n  };\n  return { discoverMasks, computeMaskIntrinsic, discoverClipPaths, discoverFilters, maskDefs, maskRasters, clipPathDefs, filterDefs };\n};\n\n// src/capture/script/walker/form-controls.ts\nvar createFormControlsHandler = ({ normColor, resolvePseudo }) => {\n  const captureFormControls = (el, cs, tag) => {\n    const mk = tag === \"details\" ? (() => {\n      const sum = el.querySelector(\":scope > summary\");\n      if (sum == null) return { suppressed: false };\n      if (window.getComputedStyle(sum).listStyleType === \"none\") return { suppressed: true };\n      const mcs = window.getComputedStyle(sum, \"::marker\");\n      const mc = mcs.color;\n      if (mc === \"transparent\") return { suppressed: true };\n      const am = /^rgba\\(\\s*[0-9.]+\\s*,\\s*[0-9.]+\\s*,\\s*[0-9.]+\\s*,\\s*([0-9.]+)\\s*\\)$/.exec(mc);\n      if (am != null && parseFloat(am[1]) === 0) return { suppressed: true };\n      return {\n        suppressed: false,\n        color: normColor(mc),\n        fontSize: parseFloat(mcs.fontSize) || void 0,\n        inside: mcs.listStylePosition === \"inside\"\n      };\n    })() : null;\n    const out = {\n      inputType: tag === \"input\" ? el.type || \"text\" : void 0,\n      // CSS appearance / -webkit-appearance longhand for inputs. When 'none'\n      // (the appearance:none custom-styled pattern) the renderer suppresses\n      // its UA-default checkbox / radio chrome so the host's author-styled\n      // border + background show through, with only the :checked indicator\n      // overlaid on top. DM-285.\n      inputAppearance: tag === \"input\" ? cs.webkitAppearance || cs.appearance || \"\" : void 0,\n      checked: tag === \"input\" && (el.type === \"checkbox\" || el.type === \"radio\") ? !!el.checked : void 0,\n      indeterminate: tag === \"input\" && el.type === \"checkbox\" ? !!el.indeterminate : void 0,\n      disabled: tag === \"input\" || tag === \"button\" || tag === \"select\" || tag === \"textarea\" ? !!el.disabled : void 0,\n      progressValue: tag === \"progress\" ? el.hasAttribute(\"value\") ? +el.value : void 0 : void 0,\n      progressMax: tag === \"progress\" ? el.max || 1 : void 0,\n      meterValue: tag === \"meter\" ? el.value != null ? +el.value : void 0 : void 0,\n      meterMin: tag === \"meter\" ? el.min || 0 : void 0,\n      meterMax: tag === \"meter\" ? el.max || 1 : void 0,\n      meterLow: tag === \"meter\" ? el.low != null ? +el.low : void 0 : void 0,\n      meterHigh: tag === \"meter\" ? el.high != null ? +el.high : void 0 : void 0,\n      meterOptimum: tag === \"meter\" ? el.optimum != null ? +el.optimum : void 0 : void 0,\n      detailsOpen: tag === \"details\" ? !!el.open : void 0,\n      // Detect if author CSS hid the summary's UA disclosure marker. If so,\n      // skip painting our own triangle — the author's custom marker (typically\n      // a ::before / ::after pseudo) is the only one that should show.\n      //   - `list-style: none` / `list-style-type: none` removes the disclosure\n      //     marker entirely (the marker IS a list-item ::marker with\n      //     list-style-type `disclosure-closed`/`disclosure-open`; setting it to\n      //     `none` drops it, exactly as for a styled <li>). This is the common\n      //     idiom — `summary { list-style: none }` plus a custom ::after caret.\n      //     DM-1115. Note `display: flex` on the summary does NOT itself suppress\n      //     the marker — Chrome still paints it when list-style-type is a\n      //     disclosure value, so we key off list-style-type, not display.\n      //   - `::marker { color: transparent }` is the other author technique for\n      //     hiding the UA triangle without changing the box model. DM-448.\n      summaryMarkerSuppressed: tag === \"details\" ? mk == null || mk.suppressed : void 0,\n      // DM-1123: when the disclosure marker IS shown, Chrome paints the\n      // triangle in the computed `::marker` color, at the `::marker` font-size,\n      // and (for the UA-default `list-style-position: inside`) at the summary's\n      // content-start — not in the summary's text color at a fixed 0.7em\n      // outside the padding. Capture those three so the renderer can match it.\n      summaryMarkerColor: mk != null && !mk.suppressed ? mk.color : void 0,\n      summaryMarkerFontSize: mk != null && !mk.suppressed ? mk.fontSize : void 0,\n      summaryMarkerInside: mk != null && !mk.suppressed ? mk.inside : void 0,\n      // DM-1152: `::details-content` (Chrome 131+) styles the disclosure body\n      // separately from the summary. When an OPEN <details> styles it with a\n      // border-top and/or background, Chrome paints a separator line +\n      // background over the content area below the summary — neither of which\n      // round-trips through plain element capture (the pseudo wraps the real\n      // content children rather than generating its own DOM node). Capture the\n      // border-top color/width + background so the renderer can synthesize the\n      // box; geometry is derived from the details + summary rects at render\n      // time. Only emitted when open AND the pseudo carries non-default paint.\n      detailsContentBox: tag === \"details\" && el.open ? (() => {\n        const dc = window.getComputedStyle(el, \"::details-content\");\n        const isPaint = (c) => c != null && c !== \"\" && c !== \"transparent\" && !/^rgba\\(\\s*[0-9.]+\\s*,\\s*[0-9.]+\\s*,\\s*[0-9.]+\\s*,\\s*0\\s*\\)$/.test(c);\n        const btw = parseFloat(dc.borderTopWidth) || 0;\n        const hasBorder = btw > 0 && isPaint(dc.borderTopColor);\n        const hasBg = isPaint(dc.backgroundColor);\n        if (!hasBorder && !hasBg) return void 0;\n        return {\n          borderTopWidth: hasBorder ? btw : 0,\n          borderTopColor: hasBorder ? normColor(dc.borderTopColor) : void 0,\n          bg: hasBg ? normColor(dc.backgroundColor) : void 0,\n          paddingBottom: parseFloat(cs.paddingBottom) || 0,\n          borderLeftWidth: parseFloat(cs.borderLeftWidth) || 0,\n          borderRightWidth: parseFloat(cs.borderRightWidth) || 0,\n          borderBottomWidth: parseFloat(cs.borderBottomWidth) || 0\n        };\n      })() : void 0,\n      // Native chevron only when the select keeps UA chrome — appearance:\n      // none means the page draws its own arrow via background-image, and\n      // we should not stack our default chevron on top. DM-308.\n      selectChevron: tag === \"select\" && el.size <= 1 && !el.multiple && cs.appearance !== \"none\" && cs.webkitAppearance !== \"none\",\n      selectDisplayText: tag === \"select\" && el.size <= 1 && !el.multiple ? el.selectedOptions && el.selectedOptions.length > 0 ? (el.selectedOptions[0].textContent || \"\").trim() : el.options && el.options.length > 0 ? (el.options[0].textContent || \"\").trim() : \"\" : void 0,\n      // Listbox-mode selects (size > 1 or multiple) flatten their option /\n      // optgroup children into a captured row list. The renderer walks this\n      // list and paints one row per entry inside the select's content rect.\n      // Optgroup labels are emitted as italic+bold rows that don't count\n      // against selection. DM-282.\n      selectListboxOptions: tag === \"select\" && (el.size > 1 || el.multiple) ? (function() {\n        const list = [];\n        const hostRect = el.getBoundingClientRect();\n        const row = (o, extra) => {\n          const ocs = window.getComputedStyle(o);\n          const or = o.getBoundingClientRect();\n          const canvas = document.createElement(\"canvas\");\n          const ctx = canvas.getContext(\"2d\");\n          let fontAscent;\n          if (ctx != null) {\n            ctx.font = `${ocs.fontStyle} ${ocs.fontWeight} ${ocs.fontSize} ${ocs.fontFamily}`;\n            fontAscent = ctx.measureText(\"Mxgp\").fontBoundingBoxAscent;\n          }\n          return {\n            text: (o.textContent || \"\").trim(),\n            selected: !!o.selected,\n            disabled: !!o.disabled,\n            ...extra,\n            // Unlike closed-select shadow parts, listbox OPTION elements\n            // expose real layout rects and computed author paint. Capture\n            // those browser-resolved facts instead of rebuilding row\n            // height and :checked styling from host-font heuristics.\n            x: or.left - hostRect.left,\n            y: or.top - hostRect.top,\n            width: or.width,\n            height: or.height,\n            backgroundColor: normColor(ocs.backgroundColor),\n            color: normColor(ocs.color),\n            paddingLeft: parseFloat(ocs.paddingLeft) || 0,\n            paddingTop: parseFloat(ocs.paddingTop) || 0,\n            fontSize: parseFloat(ocs.fontSize) || void 0,\n            fontFamily: ocs.fontFamily || void 0,\n            fontWeight: ocs.fontWeight || void 0,\n            fontStyle: ocs.fontStyle || void 0,\n            fontAscent\n          };\n        };\n        const kids = el.children;\n        for (let ki = 0; ki < kids.length; ki++) {\n          const c = kids[ki];\n          if (c.tagName === \"OPTGROUP\") {\n            list.push(row(c, { text: c.label || \"\", selected: false, isOptgroupLabel: true }));\n            const og = c.children;\n            for (let gi = 0; gi < og.length; gi++) {\n              const o = og[gi];\n              if (o.tagName !== \"OPTION\") continue;\n              list.push(row(o, { isOptgroupChild: true }));\n            }\n          } else if (c.tagName === \"OPTION\") {\n            list.push(row(c, {}));\n          }\n        }\n        return list;\n      })() : void 0,\n      accentColor: tag === \"input\" || tag === \"progress\" || tag === \"meter\" ? normColor(cs.accentColor || \"auto\") : void 0,\n      caretColor: tag === \"input\" || tag === \"textarea\" ? normColor(cs.caretColor || \"auto\") : void 0,\n      inputValue: tag === \"input\" ? el.value || \"\" : void 0,\n      inputMin: tag === \"input\" ? el.min || \"\" : void 0,\n      inputMax: tag === \"input\" ? el.max || \"\" : void 0,\n      inputStep: tag === \"input\" ? el.step || \"\" : void 0,\n      inputMultiple: tag === \"input\" ? !!el.multiple : void 0,\n      inputFileName: tag === \"input\" && el.type === \"file\" && el.files && el.files.length > 0 ? el.files[0].name : void 0\n    };\n    if (tag === \"progress\") {\n      const bar = resolvePseudo(el, \"progress-bar\");\n      const val = resolvePseudo(el, \"progress-value\");\n      out.progressBarBg = bar.matched && bar.backgroundColor !== \"\" ? normColor(bar.backgroundColor) : void 0;\n      out.progressBarBgImage = bar.matched && bar.backgroundImage !== \"\" ? bar.backgroundImage : void 0;\n      out.progressBarRadius = bar.matched && bar.borderRadius !== \"\" ? bar.borderRadius : void 0;\n      out.progressValueBg = val.matched && val.backgroundColor !== \"\" ? normColor(val.backgroundColor) : void 0;\n      out.progressValueBgImage = val.matched && val.backgroundImage !== \"\" ? val.backgroundImage : void 0;\n      out.progressValueRadius = val.matched && val.borderRadius !== \"\" ? val.borderRadius : void 0;\n    }\n    if (tag === \"meter\") {\n      const bar = resolvePseudo(el, \"meter-bar\");\n      const opt = resolvePseudo(el, \"meter-optimum\");\n      const sub = resolvePseudo(el, \"meter-suboptimum\");\n      const elg = resolvePseudo(el, \"meter-even-less-good\");\n      out.meterBarBg = bar.matched && bar.backgroundColor !== \"\" ? normColor(bar.backgroundColor) : void 0;\n      out.meterBarBgImage = bar.matched && bar.backgroundImage !== \"\" ? bar.backgroundImage : void 0;\n      out.meterBarRadius = bar.matched && bar.borderRadius !== \"\" ? bar.borderRadius : void 0;\n      out.meterOptimumBg = opt.matched && opt.backgroundColor !== \"\" ? normColor(opt.backgroundColor) : void 0;\n      out.meterOptimumBgImage = opt.matched && opt.backgroundImage !== \"\" ? opt.backgroundImage : void 0;\n      out.meterSuboptimumBg = sub.matched && sub.backgroundColor !== \"\" ? normColor(sub.backgroundColor) : void 0;\n      out.meterSuboptimumBgImage = sub.matched && sub.backgroundImage !== \"\" ? sub.backgroundImage : void 0;\n      out.meterEvenLessGoodBg = elg.matched && elg.backgroundColor !== \"\" ? normColor(elg.backgroundColor) : void 0;\n      out.meterEvenLessGoodBgImage = elg.matched && elg.backgroundImage !== \"\" ? elg.backgroundImage : void 0;\n    }\n    if (tag === \"input\" && el.type === \"color\") {\n      const swatch = resolvePseudo(el, \"color-swatch\");\n      const wrap = resolvePseudo(el, \"color-swatch-wrapper\");\n      out.colorSwatchBg = swatch.matched && swatch.backgroundColor !== \"\" ? normColor(swatch.backgroundColor) : void 0;\n      out.colorSwatchBgImage = swatch.matched && swatch.backgroundImage !== \"\" ? swatch.backgroundImage : void 0;\n      out.colorSwatchBorder = swatch.matched && swatch.border !== \"\" ? swatch.border : void 0;\n      out.colorSwatchRadius = swatch.matched && swatch.borderRadius !== \"\" ? swatch.borderRadius : void 0;\n      out.colorSwatchWrapperPadding = wrap.matched && wrap.padding !== \"\" ? wrap.padding : void 0;\n    }\n    if (tag === \"input\" && el.type === \"number\") {\n      const spin = resolvePseudo(el, \"inner-spin-button\");\n      out.numberSpinButtonBg = spin.matched && spin.backgroundColor !== \"\" ? normColor(spin.backgroundColor) : void 0;\n      out.numberSpinButtonBorder = spin.matched && spin.border !== \"\" ? spin.border : void 0;\n      out.numberSpinButtonRadius = spin.matched && spin.borderRadius !== \"\" ? spin.borderRadius : void 0;\n    }\n    if (tag === \"input\" && el.type === \"search\") {\n      const cancel = resolvePseudo(el, \"search-cancel-button\");\n      out.searchCancelButtonBg = cancel.matched && cancel.backgroundColor !== \"\" ? normColor(cancel.backgroundColor) : void 0;\n      out.searchCancelButtonBorder = cancel.matched && cancel.border !== \"\" ? cancel.border : void 0;\n      out.searchCancelButtonRadius = cancel.matched && cancel.borderRadius !== \"\" ? cancel.borderRadius : void 0;\n    }\n    if (tag === \"input\" && el.type === \"range\") {\n      const ts = resolvePseudo(el, \"track\");\n      const ms = resolvePseudo(el, \"thumb\");\n      const elAppearance = cs.webkitAppearance || cs.appearance;\n      const customAppearance = elAppearance === \"none\";\n      const styledTrack = ts.matched || customAppearance;\n      const styledThumb = ms.matched || customAppearance;\n      out.rangeTrackBg = styledTrack && ts.backgroundColor !== \"\" ? normColor(ts.backgroundColor) : styledTrack ? \"rgba(0, 0, 0, 0)\" : void 0;\n      out.rangeTrackHeight = styledTrack ? ts.height : void 0;\n      out.rangeTrackRadius = styledTrack ? ts.borderRadius : void 0;\n      out.rangeTrackBgImage = styledTrack && ts.backgroundImage !== \"\" ? ts.backgroundImage : void 0;\n      out.rangeThumbBg = styledThumb && ms.backgroundColor !== \"\" ? normColor(ms.backgroundColor) : styledThumb ? \"rgba(0, 0, 0, 0)\" : void 0;\n      out.rangeThumbWidth = styledThumb ? ms.width : void 0;\n      out.rangeThumbHeight = styledThumb ? ms.height : void 0;\n      out.rangeThumbRadius = styledThumb ? ms.borderRadius : void 0;\n      out.rangeThumbBgImage = styledThumb && ms.backgroundImage !== \"\" ? ms.backgroundImage : void 0;\n      out.rangeTrackBorder = styledTrack && ts.border !== \"\" ? ts.border : void 0;\n      out.rangeThumbBorder = styledThumb && ms.border !== \"\" ? ms.border : void 0;\n      out.rangeThumbBoxShadow = styledThumb && ms.boxShadow !== \"\" ? ms.boxShadow : void 0;\n    }\n    if (tag === \"input\" && el.type === \"file\") {\n      const pseudoCs = window.getComputedStyle(el, \"::file-selector-button\");\n      out.fileButtonBg = normColor(pseudoCs.backgroundColor);\n      out.fileButtonColor = normColor(pseudoCs.color);\n      out.fileButtonBorder = pseudoCs.border;\n      out.fileButtonBorderRadius = pseudoCs.borderRadius;\n      out.fileButtonPadding = pseudoCs.padding;\n      out.fileButtonFontWeight = pseudoCs.fontWeight;\n      out.fileButtonFontSize = pseudoCs.fontSize;\n      out.fileButtonFontFamily = pseudoCs.fontFamily;\n      out.fileButtonMarginRight = pseudoCs.marginRight;\n      const c = document.createElement(\"canvas\");\n      const ctx = c.getContext(\"2d\");\n      if (ctx != null) {\n        const weight = pseudoCs.fontWeight || \"400\";\n        const size = pseudoCs.fontSize || \"13px\";\n        const family = pseudoCs.fontFamily || \"sans-serif\";\n        ctx.font = weight + \" \" + size + \" \" + family;\n        const label = el.multiple ? \"Choose Files\" : \"Choose File\";\n        out.fileButtonLabelWidth = ctx.measureText(label).width;\n      }\n    }\n    return out;\n  };\n  return { captureFormControls };\n};\n\n// src/capture/script/walker/transforms.ts\nvar transformHasRotationOrSkew = (transformStr) => {\n  if (!transformStr || transformStr === \"none\") return false;\n  const m2 = /^matrix\\(\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)/.exec(transformStr);\n  if (m2) {\n    const b = parseFloat(m2[2]);\n    const c = parseFloat(m2[3]);\n    return Math.abs(b) > 1e-6 || Math.abs(c) > 1e-6;\n  }\n  const m3 = /^matrix3d\\(\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)\\s*,\\s*[-\\d.eE]+\\s*,\\s*[-\\d.eE]+\\s*,\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)/.exec(transformStr);\n  if (m3) {\n    const b = parseFloat(m3[2]);\n    const c = parseFloat(m3[3]);\n    return Math.abs(b) > 1e-6 || Math.abs(c) > 1e-6;\n  }\n  if (/\\brotate(?:[XYZ])?\\(/.test(transformStr)) return true;\n  if (/\\bskew(?:[XY])?\\(/.test(transformStr)) return true;\n  return false;\n};\nvar composeEffectiveTransform = (cs) => {\n  const t = cs.translate;\n  const r = cs.rotate;\n  const s = cs.scale;\n  const tr = cs.transform;\n  const hasT = t && t !== \"none\";\n  const hasR = r && r !== \"none\";\n  const hasS = s && s !== \"none\";\n  const hasTr = tr && tr !== \"none\";\n  if (!hasT && !hasR && !hasS && !hasTr) return \"none\";\n  if (!hasT && !hasR && !hasS) return tr;\n  let m = new DOMMatrix();\n  if (hasT) {\n    const ts = t.split(/\\s+/).map((v) => parseFloat(v));\n    const tx = isFinite(ts[0]) ? ts[0] : 0;\n    const ty = ts.length > 1 && isFinite(ts[1]) ? ts[1] : 0;\n    const tz = ts.length > 2 && isFinite(ts[2]) ? ts[2] : 0;\n    m = m.translate(tx, ty, tz);\n  }\n  if (hasR) {\n    const tokens = r.trim().split(/\\s+/);\n    const last = tokens[tokens.length - 1];\n    const angleDeg = parseAngleToDeg(last);\n    if (tokens.length === 4) {\n      const ax = parseFloat(tokens[0]);\n      const ay = parseFloat(tokens[1]);\n      const az = parseFloat(tokens[2]);\n      m = m.rotateAxisAngle(ax, ay, az, angleDeg);\n    } else {\n      m = m.rotate(angleDeg);\n    }\n  }\n  if (hasS) {\n    const ts = s.trim().split(/\\s+/).map((v) => parseFloat(v));\n    const sx = isFinite(ts[0]) ? ts[0] : 1;\n    const sy = ts.length > 1 && isFinite(ts[1]) ? ts[1] : sx;\n    const sz = ts.length > 2 && isFinite(ts[2]) ? ts[2] : 1;\n    m = m.scale(sx, sy, sz);\n  }\n  if (hasTr) {\n    try {\n      m = m.multiply(new DOMMatrix(tr));\n    } catch {\n    }\n  }\n  if (m.is2D) {\n    return `matrix(${m.a}, ${m.b}, ${m.c}, ${m.d}, ${m.e}, ${m.f})`;\n  }\n  return `matrix3d(${m.m11}, ${m.m12}, ${m.m13}, ${m.m14}, ${m.m21}, ${m.m22}, ${m.m23}, ${m.m24}, ${m.m31}, ${m.m32}, ${m.m33}, ${m.m34}, ${m.m41}, ${m.m42}, ${m.m43}, ${m.m44})`;\n};\nvar parseAngleToDeg = (a) => {\n  const m = /^([-+]?\\d*\\.?\\d+(?:[eE][-+]?\\d+)?)(deg|rad|grad|turn)?$/.exec(a);\n  if (!m) return 0;\n  const n = parseFloat(m[1]);\n  const u = m[2] || \"deg\";\n  if (u === \"deg\") return n;\n  if (u === \"rad\") return n * 180 / Math.PI;\n  if (u === \"grad\") return n * 360 / 400;\n  if (u === \"turn\") return n * 360;\n  return n;\n};\nvar createTransformsHandler = () => {\n  const wrapWithFrozenTransform = (el, cs, captureInner) => {\n    const originalTransform = composeEffectiveTransform(cs);\n    const hasTransform = originalTransform && originalTransform !== \"none\";\n    if (!hasTransform) {\n      return captureInner(el, cs, null, null);\n    }\n    const needsFreeze = transformHasRotationOrSkew(originalTransform) || /\\brotate\\b/.test(originalTransform) || /\\bskew/.test(originalTransform);\n    if (needsFreeze) {\n      const inlineTransform = el.style.transform;\n      const inlineRotate = el.style.rotate;\n      const inlineScale = el.style.scale;\n      const inlineTranslate = el.style.translate;\n      el.style.transform = \"translate(0)\";\n      el.style.rotate = \"none\";\n      el.style.scale = \"none\";\n      el.style.translate = \"none\";\n      try {\n        return captureInner(el, cs, originalTransform, cs.transformOrigin);\n      } finally {\n        el.style.transform = inlineTransform;\n        el.style.rotate = inlineRotate;\n        el.style.scale = inlineScale;\n        el.style.translate = inlineTranslate;\n      }\n    }\n    return captureInner(el, cs, originalTransform, cs.transformOrigin);\n  };\n  const threadFrozenTransform = (cs, frozenTransform, _frozenTransformOrigin) => ({\n    // For elements with rotation/skew, record the ORIGINAL transform so the\n    // renderer wraps a `<g transform=...>` around the (un-rotated) captured\n    // rect. For pure translate/scale (or no transform), record `'none'` so\n    // the renderer skips the wrap and paints the rect at its captured (=live)\n    // position directly. frozenTransform is non-null whenever the element\n    // originally had a non-none transform; we only stash the rotation/skew\n    // string back into styles.transform.\n    transform: frozenTransform != null && transformHasRotationOrSkew(frozenTransform) ? frozenTransform : \"none\",\n    transformOrigin: cs.transformOrigin,\n    // DM-751: extract `matrix3d` translateZ so the paint-order sort can\n    // honor 3D Z position when the parent element has\n    // `transform-style: preserve-3d` (which sorts children by Z in 3D\n    // space, not by z-index per CSS Transforms 2 §6). We can't represent\n    // perspective / actual 3D rendering in SVG; this is paint-order only.\n    translateZ: (function() {\n      const tt = cs.transform;\n      if (tt == null || tt === \"none\" || tt === \"\") return void 0;\n      const m3 = /^matrix3d\\(([^)]+)\\)/.exec(tt);\n      if (m3 == null) return void 0;\n      const parts = m3[1].split(\",\").map((s) => parseFloat(s.trim()));\n      const tz = parts[14];\n      return Number.isFinite(tz) && tz !== 0 ? tz : void 0;\n    })(),\n    // DM-587: separately flag elements that ORIGINALLY had a non-none\n    // transform — even though we discard the value to suppress the wrap,\n    // CSS Transforms 2 §4 says any non-none transform creates a stacking\n    // context, and `establishesStackingContext` needs to know that for\n    // z-index ordering (e.g. a `transform: translate(0)` on a positioned\n    // element creates an SC that traps its descendants' z-index resolution).\n    // `frozenTransform != null` is true exactly when the live cs.transform\n    // was non-none at capture time.\n    transformCreatesSc: frozenTransform != null\n  });\n  return { wrapWithFrozenTransform, threadFrozenTransform };\n};\n\n// src/capture/script/walker/collapsed-border.ts\nvar COLLAPSED_BORDER_STYLE_RANK = {\n  none: 0,\n  inset: 2,\n  groove: 3,\n  outset: 4,\n  ridge: 5,\n  dotted: 6,\n  dashed: 7,\n  solid: 8,\n  double: 9\n};\nfunction collapsedBorderStyle(style) {\n  if (style === \"inset\") return \"ridge\";\n  if (style === \"outset\") return \"groove\";\n  return style;\n}\nfunction physicalSidesForTable(writingMode, direction) {\n  if (writingMode === \"horizontal-tb\") {\n    return {\n      blockStart: \"top\",\n      blockEnd: \"bottom\",\n      inlineStart: direction === \"ltr\" ? \"left\" : \"right\",\n      inlineEnd: direction === \"ltr\" ? \"right\" : \"left\"\n    };\n  }\n  const blockStart = writingMode === \"vertical-rl\" || writingMode === \"sideways-rl\" ? \"right\" : \"left\";\n  return {\n    blockStart,\n    blockEnd: blockStart === \"right\" ? \"left\" : \"right\",\n    inlineStart: direction === \"ltr\" ? \"top\" : \"bottom\",\n    inlineEnd: direction === \"ltr\" ? \"bottom\" : \"top\"\n  };\n}\nvar emptyEdge = () => ({ winner: null, doNotFill: false });\nfunction createCollapsedBorderGrid(rows, columns) {\n  return {\n    rows,\n    columns,\n    rowAxis: Array.from({ length: rows + 1 }, () => Array.from({ length: columns }, () => emptyEdge())),\n    columnAxis: Array.from({ length: rows }, () => Array.from({ length: columns + 1 }, () => emptyEdge()))\n  };\n}\nfunction shouldReplaceCollapsedEdge(source, edge) {\n  if (edge.doNotFill) return false;\n  const current = edge.winner;\n  if (current == null || source.style === \"hidden\") return true;\n  if (current.style === \"hidden\") return false;\n  if (source.w !== current.w) return source.w > current.w;\n  return (COLLAPSED_BORDER_STYLE_RANK[source.style] ?? 0) > (COLLAPSED_BORDER_STYLE_RANK[current.style] ?? 0);\n}\nfunction mergeCollapsedEdge(edge, source) {\n  if (source == null || source.style === \"none\") return;\n  if (shouldReplaceCollapsedEdge(source, edge)) edge.winner = source;\n}\nfunction mergeCollapsedBorderBox(grid, row, column, rowspan, colspan, physical, writingMode, direction, markSpanInteriors = false) {\n  const rowEnd = Math.min(grid.rows, row + rowspan);\n  const columnEnd = Math.min(grid.columns, column + colspan);\n  if (row < 0 || column < 0 || row >= rowEnd || column >= columnEnd) return;\n  const logical = physicalSidesForTable(writingMode, direction);\n  for (let c = column; c < columnEnd; c++) {\n    mergeCollapsedEdge(grid.rowAxis[row][c], physical[logical.blockStart] ?? null);\n    mergeCollapsedEdge(grid.rowAxis[rowEnd][c], physical[logical.blockEnd] ?? null);\n  }\n  for (let r = row; r < rowEnd; r++) {\n    mergeCollapsedEdge(grid.columnAxis[r][column], physical[logical.inlineStart] ?? null);\n    mergeCollapsedEdge(grid.columnAxis[r][columnEnd], physical[logical.inlineEnd] ?? null);\n  }\n  if (!markSpanInteriors || rowEnd - row <= 1 && columnEnd - column <= 1) return;\n  for (let r = row; r < rowEnd; r++) {\n    for (let c = column + 1; c < columnEnd; c++) {\n      const edge = grid.columnAxis[r][c];\n      if (edge.winner == null) edge.doNotFill = true;\n    }\n  }\n  for (let r = row + 1; r < rowEnd; r++) {\n    for (let c = column; c < columnEnd; c++) {\n      const edge = grid.rowAxis[r][c];\n      if (edge.winner == null) edge.doNotFill = true;\n    }\n  }\n}\nvar canPaintCollapsedEdge = (edge) => edge?.winner != null && edge.winner.style !== \"none\" && edge.winner.style !== \"hidden\" && edge.winner.w > 0;\nfunction compareCollapsedEdgesForPaint(lhs, rhs) {\n  const lp = canPaintCollapsedEdge(lhs), rp = canPaintCollapsedEdge(rhs);\n  if (lp && rp) {\n    if (lhs.winner.w !== rhs.winner.w) return lhs.winner.w > rhs.winner.w ? 1 : -1;\n    if (lhs.winner.style === rhs.winner.style) {\n      if (lhs.winner.order === rhs.winner.order) return 0;\n      return lhs.winner.order < rhs.winner.order ? 1 : -1;\n    }\n    return (COLLAPSED_BORDER_STYLE_RANK[lhs.winner.style] ?? 0) > (COLLAPSED_BORDER_STYLE_RANK[rhs.winner.style] ?? 0) ? 1 : -1;\n  }\n  if (!lp && !rp) return 0;\n  return lp ? 1 : -1;\n}\nvar winnerWidth = (edge) => canPaintCollapsedEdge(edge) ? edge.winner.w : 0;\nvar edgeAt = (rows, row, column) => row >= 0 && row < rows.length && column >= 0 && column < rows[row].length ? rows[row][column] : null;\nvar collapsedBorderPaintIndex = (rect, columns) => rect.row * (columns + 1) * 2 + rect.column * 2 + (rect.axis === \"row\" ? 1 : 0);\nfunction jointDecision(before, after, over, under, axis, end, overFragmentBoundary = false, underFragmentBoundary = false) {\n  if (!end) {\n    if (overFragmentBoundary) over = null;\n    if (underFragmentBoundary && axis === \"row\") under = null;\n  } else {\n    if (overFragmentBoundary && axis === \"row\") over = null;\n    if (underFragmentBoundary) under = null;\n  }\n  const inlineCompare = compareCollapsedEdgesForPaint(before, after);\n  const inlineWinner = inlineCompare === 1 ? before : after;\n  const blockCompare = compareCollapsedEdgesForPaint(over, under);\n  const blockWinner = blockCompare === 1 ? over : under;\n  const inlineVsBlock = compareCollapsedEdgesForPaint(inlineWinner, blockWinner);\n  const wins = axis === \"row\" ? inlineVsBlock !== -1 && inlineCompare !== (end ? -1 : 1) : inlineVsBlock !== 1 && blockCompare !== (end ? -1 : 1);\n  const blockWidthSuppressed = !end ? overFragmentBoundary || underFragmentBoundary && axis === \"row\" : overFragmentBoundary && axis === \"row\" || underFragmentBoundary;\n  return {\n    inlineWidth: winnerWidth(blockWinner),\n    blockWidth: blockWidthSuppressed ? 0 : winnerWidth(inlineWinner),\n    wins\n  };\n}\nfunction collapsedBorderFragmentLogicalRects(grid, inlineLines, sections) {\n  if (inlineLines.length !== grid.columns + 1)\n    throw new Error(\"collapsed-border inline tracks do not match the edge grid\");\n  const rects = [];\n  let previousPaintedRow = null;\n  for (const section of sections) {\n    const sectionRectStart = rects.length;\n    const lines = section.blockLines;\n    if (lines.length < 2) continue;\n    const finalRowEdge = section.rowStart + lines.length - 1;\n    for (let tableRow = section.rowStart; tableRow <= finalRowEdge; tableRow++) {\n      const localRow = tableRow - section.rowStart;\n      const startRow = localRow === 0;\n      const endRow = localRow === lines.length - 1;\n      const startFragmented = startRow && section.startRowFragmented === true;\n      const endFragmented = endRow && section.endRowFragmented === true;\n      const overBoundary = startRow && section.hasContentBefore === true;\n      const underBoundary = endRow && section.hasContentAfter === true;\n      if (!startFragmented && !endFragmented && previousPaintedRow !== tableRow) {\n        for (let column = 0; column < grid.columns; column++) {\n          const edge = edgeAt(grid.rowAxis, tableRow, column);\n          if (!canPaintCollapsedEdge(edge)) continue;\n          const start = jointDecision(\n            edgeAt(grid.rowAxis, tableRow, column - 1),\n            edge,\n            edgeAt(grid.columnAxis, tableRow - 1, column),\n            edgeAt(grid.columnAxis, tableRow, column),\n            \"row\",\n            false,\n            overBoundary,\n            underBoundary\n          );\n          const end = jointDecision(\n            edge,\n            edgeAt(grid.rowAxis, tableRow, column + 1),\n            edgeAt(grid.columnAxis, tableRow - 1, column + 1),\n            edgeAt(grid.columnAxis, tableRow, column + 1),\n            \"row\",\n            true,\n            overBoundary,\n            underBoundary\n          );\n          let inlineStart = inlineLines[column];\n          let inlineSize = inlineLines[column + 1] - inlineStart;\n          const startDelta = start.inlineWidth / 2;\n          inlineStart += start.wins ? -startDelta : startDelta;\n          inlineSize += start.wins ? startDelta : -startDelta;\n          const endDelta = end.inlineWidth / 2;\n          inlineSize += end.wins ? endDelta : -endDelta;\n          const width = edge.winner.w;\n          rects.push({\n            axis: \"row\",\n            row: tableRow,\n            column,\n            inlineStart,\n            blockStart: overBoundary ? lines[localRow] : lines[localRow] - width / 2,\n            inlineSize,\n            blockSize: overBoundary || underBoundary ? width / 2 : width,\n            winner: edge.winner\n          });\n        }\n      }\n      if (localRow + 1 >= lines.length) continue;\n      const endSegmentRow = localRow + 1 === lines.length - 1;\n      const endSegmentFragmented = endSegmentRow && section.endRowFragmented === true;\n      const underSegmentBoundary = endSegmentRow && section.hasContentAfter === true;\n      for (let column = 0; column <= grid.columns; column++) {\n        const edge = edgeAt(grid.columnAxis, tableRow, column);\n        if (!canPaintCollapsedEdge(edge)) continue;\n        const start = jointDecision(\n          edgeAt(grid.rowAxis, tableRow, column - 1),\n          edgeAt(grid.rowAxis, tableRow, column),\n          edgeAt(grid.columnAxis, tableRow - 1, column),\n          edge,\n          \"column\",\n          false,\n          overBoundary,\n          underSegmentBoundary\n        );\n        const end = jointDecision(\n          edgeAt(grid.rowAxis, tableRow + 1, column - 1),\n          edgeAt(grid.rowAxis, tableRow + 1, column),\n          edge,\n          edgeAt(grid.columnAxis, tableRow + 1, column),\n          \"column\",\n          true,\n          overBoundary,\n          underSegmentBoundary\n        );\n        let blockStart = lines[localRow];\n        let blockSize = lines[localRow + 1] - blockStart;\n        if (!startFragmented) {\n          const delta = start.blockWidth / 2;\n          blockStart += start.wins ? -delta : delta;\n          blockSize += start.wins ? delta : -delta;\n        }\n        if (!endSegmentFragmented) {\n          const delta = end.blockWidth / 2;\n          blockSize += end.wins ? delta : -delta;\n        }\n        rects.push({\n          axis: \"column\",\n          row: tableRow,\n          column,\n          inlineStart: inlineLines[column] - edge.winner.w / 2,\n          blockStart,\n          inlineSize: edge.winner.w,\n          blockSize,\n          winner: edge.winner\n        });\n      }\n    }\n    const sectionRects = rects.splice(sectionRectStart);\n    sectionRects.sort((a, b) => collapsedBorderPaintIndex(a, grid.columns) - collapsedBorderPaintIndex(b, grid.columns));\n    rects.push(...sectionRects);\n    previousPaintedRow = section.endRowFragmented ? null : finalRowEdge;\n  }\n  return rects;\n}\nfunction collapsedBorderLogicalRects(grid, inlineLines, blockLines) {\n  if (inlineLines.length !== grid.columns + 1 || blockLines.length !== grid.rows + 1)\n    throw new Error(\"collapsed-border track coordinates do not match the edge grid\");\n  const rects = [];\n  for (let row = 0; row <= grid.rows; row++) {\n    for (let column = 0; column < grid.columns; column++) {\n      const edge = grid.rowAxis[row][column];\n      if (!canPaintCollapsedEdge(edge)) continue;\n      const start = jointDecision(\n        edgeAt(grid.rowAxis, row, column - 1),\n        edge,\n        edgeAt(grid.columnAxis, row - 1, column),\n        edgeAt(grid.columnAxis, row, column),\n        \"row\",\n        false\n      );\n      const end = jointDecision(\n        edge,\n        edgeAt(grid.rowAxis, row, column + 1),\n        edgeAt(grid.columnAxis, row - 1, column + 1),\n        edgeAt(grid.columnAxis, row, column + 1),\n        \"row\",\n        true\n      );\n      let inlineStart = inlineLines[column];\n      let inlineSize = inlineLines[column + 1] - inlineStart;\n      const startDelta = start.inlineWidth / 2;\n      inlineStart += start.wins ? -startDelta : startDelta;\n      inlineSize += start.wins ? startDelta : -startDelta;\n      const endDelta = end.inlineWidth / 2;\n      inlineSize += end.wins ? endDelta : -endDelta;\n      rects.push({ axis: \"row\", row, column, inlineStart, blockStart: blockLines[row] - edge.winner.w / 2, inlineSize, blockSize: edge.winner.w, winner: edge.winner });\n    }\n  }\n  for (let row = 0; row < grid.rows; row++) {\n    for (let column = 0; column <= grid.columns; column++) {\n      const edge = grid.columnAxis[row][column];\n      if (!canPaintCollapsedEdge(edge)) continue;\n      const start = jointDecision(\n        edgeAt(grid.rowAxis, row, column - 1),\n        edgeAt(grid.rowAxis, row, column),\n        edgeAt(grid.columnAxis, row - 1, column),\n        edge,\n        \"column\",\n        false\n      );\n      const end = jointDecision(\n        edgeAt(grid.rowAxis, row + 1, column - 1),\n        edgeAt(grid.rowAxis, row + 1, column),\n        edge,\n        edgeAt(grid.columnAxis, row + 1, column),\n        \"column\",\n        true\n      );\n      let blockStart = blockLines[row];\n      let blockSize = blockLines[row + 1] - blockStart;\n      const startDelta = start.blockWidth / 2;\n      blockStart += start.wins ? -startDelta : startDelta;\n      blockSize += start.wins ? startDelta : -startDelta;\n      const endDelta = end.blockWidth / 2;\n      blockSize += end.wins ? endDelta : -endDelta;\n      rects.push({ axis: \"column\", row, column, inlineStart: inlineLines[column] - edge.winner.w / 2, blockStart, inlineSize: edge.winner.w, blockSize, winner: edge.winner });\n    }\n  }\n  rects.sort((a, b) => collapsedBorderPaintIndex(a, grid.columns) - collapsedBorderPaintIndex(b, grid.columns));\n  return rects;\n}\n\n// src/capture/script/walker/borders-backgrounds.ts\nvar physicalComputedPaintLength = (value, effectiveZoom) => {\n  if (effectiveZoom === 1) return value;\n  const number = parseFloat(value);\n  if (!Number.isFinite(number)) return value;\n  return `${Math.round(number * effectiveZoom * 1e6) / 1e6}px`;\n};\nvar physicalComputedTileSize = (value, effectiveZoom) => {\n  if (effectiveZoom === 1) return value;\n  return value.replace(/(-?(?:\\d+(?:\\.\\d+)?|\\.\\d+))px\\b/g, (_match, number) => `${Math.round(parseFloat(number) * effectiveZoom * 1e6) / 1e6}px`);\n};\nvar tableGridRectFromCaptions = (tableRect, writingMode, captions) => {\n  const vertical = /^(?:vertical|sideways)-/.test(writingMode);\n  const blockReverse = writingMode === \"vertical-rl\" || writingMode === \"sideways-rl\";\n  const blockExtent = vertical ? tableRect.width : tableRect.height;\n  const logicalEdges = (rect) => {\n    if (!vertical) return { start: rect.top - tableRect.top, end: rect.bottom - tableRect.top };\n    if (blockReverse) return { start: tableRect.right - rect.right, end: tableRect.right - rect.left };\n    return { start: rect.left - tableRect.left, end: rect.right - tableRect.left };\n  };\n  let blockStart = 0;\n  let blockEnd = blockExtent;\n  let sawBottom = false;\n  for (const caption of captions) {\n    const edges = logicalEdges(caption.rect);\n    if (caption.side === \"bottom\") {\n      if (!sawBottom) {\n        blockEnd = edges.start - caption.marginBlockStart;\n        sawBottom = true;\n      }\n    } else {\n      blockStart = edges.end + caption.marginBlockEnd;\n    }\n  }\n  if (!vertical) {\n    return {\n      x: tableRect.left,\n      y: tableRect.top + blockStart,\n      width: tableRect.width,\n      height: blockEnd - blockStart\n    };\n  }\n  return {\n    x: blockReverse ? tableRect.right - blockEnd : tableRect.left + blockStart,\n    y: tableRect.top,\n    width: blockEnd - blockStart,\n    height: tableRect.height\n  };\n};\nvar createBordersBackgroundsHandler = ({ normColor, normGradientColors, resolvePlaceholderShownBg, resolveCornerRadius, effectiveZoomFor = () => 1, warn = () => {\n}, shortSelector = () => \"\", vp = { x: 0, y: 0 } }) => {\n  const isUaColorBorder = (tag, el, cs, side) => tag === \"input\" && el.type === \"color\" && normColor(cs[side], cs.color).replace(/\\s+/g, \"\") === \"rgb(0,0,0)\";\n  const tintedBorderColor = (tag, el, cs, side) => isUaColorBorder(tag, el, cs, side) ? \"rgb(118,118,118)\" : normColor(cs[side], cs.color);\n  const pseudoCreatesInflowFragment = (el, pseudo) => {\n    const styleWindow = el.ownerDocument?.defaultView ?? window;\n    const pcs = styleWindow.getComputedStyle(el, pseudo);\n    const content = pcs.content;\n    return content != null && content !== \"\" && content !== \"none\" && content !== \"normal\" && pcs.display !== \"none\" && pcs.position !== \"absolute\" && pcs.position !== \"fixed\";\n  };\n  const nodeCreatesInflowFragment = (node) => {\n    if (node.nodeType === 3) {\n      const range = node.ownerDocument.createRange();\n      range.selectNodeContents(node);\n      const hasFragment = range.getClientRects().length > 0;\n      if (range.detach) range.detach();\n      return hasFragment;\n    }\n    if (node.nodeType !== 1) return false;\n    const styleWindow = node.ownerDocument?.defaultView ?? window;\n    const ncs = styleWindow.getComputedStyle(node);\n    if (ncs.display === \"none\" || ncs.position === \"absolute\" || ncs.position === \"fixed\") return false;\n    if (ncs.display !== \"contents\") return true;\n    if (pseudoCreatesInflowFragment(node, \"::before\")) return true;\n    for (const child of node.childNodes) if (nodeCreatesInflowFragment(child)) return true;\n    return pseudoCreatesInflowFragment(node, \"::after\");\n  };\n  const tableCellHasInflowFragments = (cell) => {\n    if (pseudoCreatesInflowFragment(cell, \"::before\")) return true;\n    for (const child of cell.childNodes) if (nodeCreatesInflowFragment(child)) return true;\n    return pseudoCreatesInflowFragment(cell, \"::after\");\n  };\n  const isTableCellHiddenByEmptyCells = (el, cs, tag) => (tag === \"td\" || tag === \"th\") && cs.borderCollapse !== \"collapse\" && cs.emptyCells === \"hide\" && !tableCellHasInflowFragments(el);\n  const resolveTableGridRect = (el, cs, tag, rect) => {\n    if (tag !== \"table\") return void 0;\n    const captions = [];\n    for (const child of el.children) {\n      const styleWindow = child.ownerDocument?.defaultView ?? window;\n      const ccs = styleWindow.getComputedStyle(child);\n      if (ccs.display !== \"table-caption\") continue;\n      const captionRect = child.getBoundingClientRect();\n      const zoom = effectiveZoomFor(child);\n      const vertical = /^(?:vertical|sideways)-/.test(cs.writingMode);\n      const blockReverse = cs.writingMode === \"vertical-rl\" || cs.writingMode === \"sideways-rl\";\n      const marginBlockStart = parseFloat(vertical ? blockReverse ? ccs.marginRight : ccs.marginLeft : ccs.marginTop) * zoom || 0;\n      const marginBlockEnd = parseFloat(vertical ? blockReverse ? ccs.marginLeft : ccs.marginRight : ccs.marginBottom) * zoom || 0;\n      captions.push({\n        rect: captionRect,\n        side: ccs.captionSide === \"bottom\" ? \"bottom\" : \"top\",\n        marginBlockStart,\n        marginBlockEnd\n      });\n    }\n    if (captions.length === 0) return void 0;\n    const grid = tableGridRectFromCaptions(rect, cs.writingMode, captions);\n    return { x: grid.x - vp.x, y: grid.y - vp.y, width: grid.width, height: grid.height };\n  };\n  const computeFrostedBgFallback = (cs) => {\n    const bdf = cs.backdropFilter || cs.webkitBackdropFilter || \"\";\n    if (bdf === \"\" || bdf === \"none\") return void 0;\n    const bgCol = normColor(cs.backgroundColor, cs.color);\n    let a = 1;\n    const m = /rgba?\\(\\s*[^,)\\s]+[ ,]+[^,)\\s]+[ ,]+[^,)\\s]+(?:[ ,/]+([^)]+))?\\)/.exec(bgCol);\n    if (m != null && m[1] != null) {\n      const av = parseFloat(m[1]);\n      if (!isNaN(av)) a = av;\n    }\n    if (a > 0.1) return void 0;\n    const bodyBg = normColor(window.getComputedStyle(document.body).backgroundColor);\n    let bodyA = 1;\n    const bm = /rgba?\\(\\s*[^,)\\s]+[ ,]+[^,)\\s]+[ ,]+[^,)\\s]+(?:[ ,/]+([^)]+))?\\)/.exec(bodyBg);\n    if (bm != null && bm[1] != null) {\n      const bav = parseFloat(bm[1]);\n      if (!isNaN(bav)) bodyA = bav;\n    }\n    return bodyA <= 0.1 ? \"rgb(255,255,255)\" : bodyBg;\n  };\n  const computeBackgroundImages = (el, cs) => {\n    const bgImage = cs.backgroundImage;\n    if (bgImage == null || bgImage === \"none\" || bgImage === \"\") return void 0;\n    const records = el && el.__domotionBackgroundImages;\n    if (!Array.isArray(records)) {\n      warn(shortSelector(el), \"background-image\", \"capture-time selected-image sizing record was unavailable\");\n      return void 0;\n    }\n    const recordWarnings = [];\n    for (const record of records) {\n      if (record == null || record.warning == null) continue;\n      recordWarnings.push(\"layer \" + record.layerIndex + \": \" + record.warning);\n    }\n    if (recordWarnings.length > 0) {\n      warn(shortSelector(el), \"background-image\", recordWarnings.join(\"; \"));\n    }\n    return records;\n  };\n  const computeBorderImageIntrinsic = (cs, dim) => {\n    const url = extractCssUrl(cs.borderImageSource || \"\");\n    if (url == null) return void 0;\n    const img = new Image();\n    img.src = url;\n    return img[dim] || void 0;\n  };\n  const resolveCollapsedTableRects = (table) => {\n    if (table.__dmCollapsedBorderRects !== void 0) return table.__dmCollapsedBorderRects;\n    const tableCs = getComputedStyle(table);\n    if (tableCs.borderCollapse !== \"collapse\") return table.__dmCollapsedBorderRects = null;\n    const writingMode = tableCs.writingMode || \"horizontal-tb\";\n    const direction = tableCs.direction === \"rtl\" ? \"rtl\" : \"ltr\";\n    const sectionEls = Array.from(table.children).filter((x) => x.tagName === \"THEAD\" || x.tagName === \"TBODY\" || x.tagName === \"TFOOT\");\n    const directRows = Array.from(table.children).filter((x) => x.tagName === \"TR\");\n    const rowEntries = [];\n    if (directRows.length) for (const row of directRows) rowEntries.push({ row, section: null, sectionIndex: -1 });\n    for (let sectionIndex = 0; sectionIndex < sectionEls.length; sectionIndex++) {\n      for (const row of Array.from(sectionEls[sectionIndex].children).filter((x) => x.tagName === \"TR\")) rowEntries.push({ row, section: sectionEls[sectionIndex], sectionIndex });\n    }\n    if (!rowEntries.length) return table.__dmCollapsedBorderRects = null;\n    const occupancy = [], cells = [], sections = /* @__PURE__ */ new Map();\n    let columns = 0;\n    for (let r = 0; r < rowEntries.length; r++) {\n      occupancy[r] || (occupancy[r] = []);\n      const entry = rowEntries[r];\n      if (entry.section != null) {\n        const current = sections.get(entry.section);\n        if (current == null) sections.set(entry.section, { start: r, count: 1 });\n        else current.count++;\n      }\n      let c = 0;\n      for (const cell of Array.from(entry.row.children).filter((x) => x.tagName === \"TD\" || x.tagName === \"TH\")) {\n        while (occupancy[r][c] != null) c++;\n        const colspan = Math.max(1, cell.colSpan || 1);\n        let rowspan = Math.max(1, cell.rowSpan || 1);\n        if (entry.section != null) {\n          const sectionRows = Array.from(entry.section.children).filter((x) => x.tagName === \"TR\");\n          const localRow = sectionRows.indexOf(entry.row);\n          rowspan = Math.min(rowspan, sectionRows.length - localRow);\n        } else rowspan = Math.min(rowspan, rowEntries.length - r);\n        const meta = { cell, row: r, column: c, rowspan, colspan };\n        cells.push(meta);\n        for (let rr = r; rr < r + rowspan; rr++) {\n          occupancy[rr] || (occupancy[rr] = []);\n          for (let cc = c; cc < c + colspan; cc++) occupancy[rr][cc] = meta;\n        }\n        c += colspan;\n        columns = Math.max(columns, c);\n      }\n    }\n    if (!columns) return table.__dmCollapsedBorderRects = null;\n    const grid = createCollapsedBorderGrid(rowEntries.length, columns);\n    let boxOrder = 0;\n    const physicalBorders = (node, order) => {\n      const cs = getComputedStyle(node);\n      const zoom = effectiveZoomFor(node);\n      const one = (side) => ({\n        side: side.toLowerCase(),\n        order,\n        w: parseFloat(physicalComputedPaintLength(cs[\"border\" + side + \"Width\"], zoom)) || 0,\n        style: collapsedBorderStyle(cs[\"border\" + side + \"Style\"]),\n        color: normColor(cs[\"border\" + side + \"Color\"], cs.color)\n      });\n      return { top: one(\"Top\"), right: one(\"Right\"), bottom: one(\"Bottom\"), left: one(\"Left\") };\n    };\n    for (const meta of cells) mergeCollapsedBorderBox(grid, meta.row, meta.column, meta.rowspan, meta.colspan, physicalBorders(meta.cell, ++boxOrder), writingMode, direction, true);\n    for (let r = 0; r < rowEntries.length; r++) mergeCollapsedBorderBox(grid, r, 0, 1, columns, physicalBorders(rowEntries[r].row, ++boxOrder), writingMode, direction);\n    for (const [section, span] of sections) mergeCollapsedBorderBox(grid, span.start, 0, span.count, columns, physicalBorders(section, ++boxOrder), writingMode, direction);\n    const columnEntries = [];\n    for (const child of Array.from(table.children)) {\n      if (child.tagName === \"COL\") {\n        columnEntries.push({ col: child, group: null, start: columnEntries.length, span: Math.max(1, child.span || 1) });\n      } else if (child.tagName === \"COLGROUP\") {\n        const start = columnEntries.reduce((n, item) => Math.max(n, item.start + item.span), 0);\n        const cols = Array.from(child.children).filter((x) => x.tagName === \"COL\");\n        if (!cols.length) columnEntries.push({ col: null, group: child, start, span: Math.max(1, child.span || 1) });\n        else {\n          let at = start;\n          for (const col of cols) {\n            const span = Math.max(1, col.span || 1);\n            columnEntries.push({ col, group: child, start: at, span });\n            at += span;\n          }\n        }\n      }\n    }\n    const columnOrder = ++boxOrder;\n    for (const entry of columnEntries) if (entry.col != null) mergeCollapsedBorderBox(grid, 0, entry.start, rowEntries.length, entry.span, physicalBorders(entry.col, columnOrder), writingMode, direction);\n    const groupOrder = ++boxOrder;\n    const groupsSeen = /* @__PURE__ */ new Set();\n    for (const entry of columnEntries) if (entry.group != null && !groupsSeen.has(entry.group)) {\n      groupsSeen.add(entry.group);\n      const members = columnEntries.filter((x) => x.group === entry.group);\n      const start = Math.min(...members.map((x) => x.start));\n      const end = Math.max(...members.map((x) => x.start + x.span));\n      mergeCollapsedBorderBox(grid, 0, start, rowEntries.length, end - start, physicalBorders(entry.group, groupOrder), writingMode, direction);\n    }\n    mergeCollapsedBorderBox(grid, 0, 0, rowEntries.length, columns, physicalBorders(table, ++boxOrder), writingMode, direction);\n    const tableRect = table.getBoundingClientRect();\n    const trackLines = (samples, fallbackEnd) => {\n      const lines = samples.map((values) => {\n        if (!values.length) return null;\n        values.sort((a, b) => a - b);\n        const mid = Math.floor(values.length / 2);\n        return values.length % 2 ? values[mid] : (values[mid - 1] + values[mid]) / 2;\n      });\n      if (lines[0] == null) lines[0] = 0;\n      if (lines[lines.length - 1] == null) lines[lines.length - 1] = fallbackEnd;\n      for (let i = 1; i < lines.length - 1; i++) if (lines[i] == null) {\n        let hi = i + 1;\n        while (hi < lines.length && lines[hi] == null) hi++;\n        lines[i] = lines[i - 1] + (lines[hi] - lines[i - 1]) / (hi - i + 1);\n      }\n      return lines;\n    };\n    const tableFragments = Array.from(table.getClientRects()).filter((rect) => rect.width > 0 && rect.height > 0);\n    if (tableFragments.length > 1) {\n      const overlapArea = (a, b) => Math.max(0, Math.min(a.right, b.right) - Math.max(a.left, b.left)) * Math.max(0, Math.min(a.bottom, b.bottom) - Math.max(a.top, b.top));\n      const fragmentIndexFor = (rect) => {\n        let best = -1, area = 0;\n        for (let i = 0; i < tableFragments.length; i++) {\n          const candidate = overlapArea(rect, tableFragments[i]);\n          if (candidate > area) {\n            best = i;\n            area = candidate;\n          }\n        }\n        return best;\n      };\n      const horizontal2 = writingMode === \"horizontal-tb\";\n      const blockReverse2 = writingMode === \"vertical-rl\" || writingMode === \"sideways-rl\";\n      const repeatedSections = /* @__PURE__ */ new Map();\n      for (const section of sectionEls) {\n        if (section.tagName !== \"THEAD\" && section.tagName !== \"TFOOT\") continue;\n        const rects = Array.from(section.getClientRects());\n        const mapped = new Set(rects.map(fragmentIndexFor).filter((index) => index >= 0));\n        if (rects.length === tableFragments.length && tableFragments.length > 1 && mapped.size === 1) {\n          repeatedSections.set(section, { kind: section.tagName === \"THEAD\" ? \"header\" : \"footer\", sourceFragment: [...mapped][0] });\n        }\n      }\n      const translatedRect = (rect, dx, dy) => ({\n        x: rect.x + dx,\n        y: rect.y + dy,\n        left: rect.left + dx,\n        right: rect.right + dx,\n        top: rect.top + dy,\n        bottom: rect.bottom + dy,\n        width: rect.width,\n        height: rect.height\n      });\n      const fragmentRectsFor = (node, section) => {\n        const rects = Array.from(node.getClientRects());\n        const repeated = repeatedSections.get(section);\n        if (repeated == null || !rects.length) return rects.map((rect) => ({ rect, fragment: fragmentIndexFor(rect), repeated: false }));\n        const sourceRect = rects[0];\n        const sourceFragment = tableFragments[repeated.sourceFragment];\n        return tableFragments.map((target, fragment) => {\n          let dx, dy;\n          if (horizontal2) {\n            dx = target.left - sourceFragment.left;\n            dy = repeated.kind === \"header\" ? target.top - sourceFragment.top : target.bottom - sourceFragment.bottom;\n          } else {\n            dy = target.top - sourceFragment.top;\n            if (repeated.kind === \"header\") dx = blockReverse2 ? target.right - sourceFragment.right : target.left - sourceFragment.left;\n            else dx = blockReverse2 ? target.left - sourceFragment.left : target.right - sourceFragment.right;\n          }\n          return { rect: translatedRect(sourceRect, dx, dy), fragment, repeated: true };\n        });\n      };\n      const rowPieces = rowEntries.map((entry, row) => fragmentRectsFor(entry.row, entry.section).map((piece) => ({ rect: piece.rect, fragment: piece.fragment, repeated: piece.repeated, row, section: entry.section })).filter((piece) => piece.fragment >= 0));\n      const cellPieces = cells.map((meta) => fragmentRectsFor(meta.cell, rowEntries[meta.row].section).map((piece) => ({ rect: piece.rect, fragment: piece.fragment, meta })).filter((piece) => piece.fragment >= 0));\n      const sectionPieces = new Map(sectionEls.map((section) => [section, fragmentRectsFor(section, section)]));\n      const physicalRects2 = [];\n      for (let fragmentIndex = 0; fragmentIndex < tableFragments.length; fragmentIndex++) {\n        const fragmentRect = tableFragments[fragmentIndex];\n        const inlineReverse2 = direction === \"rtl\";\n        const logical = (rect) => ({\n          inlineStart: horizontal2 ? inlineReverse2 ? fragmentRect.right - rect.right : rect.left - fragmentRect.left : inlineReverse2 ? fragmentRect.bottom - rect.bottom : rect.top - fragmentRect.top,\n          inlineEnd: horizontal2 ? inlineReverse2 ? fragmentRect.right - rect.left : rect.right - fragmentRect.left : inlineReverse2 ? fragmentRect.bottom - rect.top : rect.bottom - fragmentRect.top,\n          blockStart: horizontal2 ? rect.top - fragmentRect.top : blockReverse2 ? fragmentRect.right - rect.right : rect.left - fragmentRect.left,\n          blockEnd: horizontal2 ? rect.bottom - fragmentRect.top : blockReverse2 ? fragmentRect.right - rect.left : rect.right - fragmentRect.left\n        });\n        const inlineSamples2 = Array.from({ length: columns + 1 }, () => []);\n        for (const pieces of cellPieces) for (const piece of pieces) if (piece.fragment === fragmentIndex) {\n          const coords = logical(piece.rect), meta = piece.meta;\n          inlineSamples2[meta.column].push(coords.inlineStart);\n          inlineSamples2[meta.column + meta.colspan].push(coords.inlineEnd);\n        }\n        const inlineExtent2 = horizontal2 ? fragmentRect.width : fragmentRect.height;\n        const inlineLines = trackLines(inlineSamples2, inlineExtent2);\n        const piecesHere = rowPieces.flat().filter((piece) => piece.fragment === fragmentIndex);\n        const sectionGroups = /* @__PURE__ */ new Map();\n        for (const piece of piecesHere) {\n          const key = piece.section ?? table;\n          let group = sectionGroups.get(key);\n          if (group == null) {\n            group = [];\n            sectionGroups.set(key, group);\n          }\n          group.push(piece);\n        }\n        const groups = Array.from(sectionGroups.values()).map((pieces) => {\n          pieces.sort((a, b) => logical(a.rect).blockStart - logical(b.rect).blockStart || a.row - b.row);\n          const first = pieces[0], last = pieces[pieces.length - 1];\n          const blockLines = pieces.map((piece) => logical(piece.rect).blockStart);\n          const sectionRect = first.section == null ? null : sectionPieces.get(first.section)?.find((piece) => piece.fragment === fragmentIndex)?.rect;\n          blockLines.push(sectionRect == null ? logical(last.rect).blockEnd : logical(sectionRect).blockEnd);\n          const firstPieceIndex = rowPieces[first.row].findIndex((piece) => piece === first);\n          const lastPieceIndex = rowPieces[last.row].findIndex((piece) => piece === last);\n          return {\n            rowStart: first.row,\n            blockLines,\n            startRowFragmented: !first.repeated && firstPieceIndex > 0,\n            endRowFragmented: !last.repeated && lastPieceIndex >= 0 && lastPieceIndex < rowPieces[last.row].length - 1\n          };\n        }).sort((a, b) => a.blockLines[0] - b.blockLines[0]);\n        for (let i = 0; i < groups.length; i++) {\n          groups[i].hasContentBefore = i === 0 && groups[i].rowStart > 0;\n          groups[i].hasContentAfter = i === groups.length - 1 && groups[i].rowStart + groups[i].blockLines.length < grid.rows + 1;\n        }\n        const logicalRects2 = collapsedBorderFragmentLogicalRects(grid, inlineLines, groups);\n        for (const rect of logicalRects2) {\n          let x, y, width, height;\n          if (horizontal2) {\n            x = inlineReverse2 ? fragmentRect.right - rect.inlineStart - rect.inlineSize : fragmentRect.left + rect.inlineStart;\n            y = fragmentRect.top + rect.blockStart;\n            width = rect.inlineSize;\n            height = rect.blockSize;\n          } else {\n            x = blockReverse2 ? fragmentRect.right - rect.blockStart - rect.blockSize : fragmentRect.left + rect.blockStart;\n            y = inlineReverse2 ? fragmentRect.bottom - rect.inlineStart - rect.inlineSize : fragmentRect.top + rect.inlineStart;\n            width = rect.blockSize;\n            height = rect.inlineSize;\n          }\n          const snap2 = (start, size) => {\n            const rounded = Math.round(start);\n            return { start: rounded, size: Math.max(0, Math.round(start + size) - rounded) };\n          };\n          const sx = snap2(x, width), sy = snap2(y, height);\n          if (sx.size > 0 && sy.size > 0) physicalRects2.push({ x: sx.start, y: sy.start, width: sx.size, height: sy.size, axis: rect.axis, style: rect.winner.style, color: rect.winner.color });\n        }\n      }\n      table.__dmCollapsedCells = new Set(cells.map((meta) => meta.cell));\n      table.__dmCollapsedBorderRects = physicalRects2;\n      return physicalRects2;\n    }\n    const inlineSamples = Array.from({ length: columns + 1 }, () => []);\n    const blockSamples = Array.from({ length: rowEntries.length + 1 }, () => []);\n    const horizontal = writingMode === \"horizontal-tb\";\n    const blockReverse = writingMode === \"vertical-rl\" || writingMode === \"sideways-rl\";\n    const inlineReverse = direction === \"rtl\";\n    for (const meta of cells) {\n      const rect = meta.cell.getBoundingClientRect();\n      const inlineStart = horizontal ? inlineReverse ? tableRect.right - rect.right : rect.left - tableRect.left : inlineReverse ? tableRect.bottom - rect.bottom : rect.top - tableRect.top;\n      const inlineEnd = horizontal ? inlineReverse ? tableRect.right - rect.left : rect.right - tableRect.left : inlineReverse ? tableRect.bottom - rect.top : rect.bottom - tableRect.top;\n      const blockStart = horizontal ? rect.top - tableRect.top : blockReverse ? tableRect.right - rect.right : rect.left - tableRect.left;\n      const blockEnd = horizontal ? rect.bottom - tableRect.top : blockReverse ? tableRect.right - rect.left : rect.right - tableRect.left;\n      inlineSamples[meta.column].push(inlineStart);\n      inlineSamples[meta.column + meta.colspan].push(inlineEnd);\n      blockSamples[meta.row].push(blockStart);\n      blockSamples[meta.row + meta.rowspan].push(blockEnd);\n    }\n    const inlineExtent = horizontal ? tableRect.width : tableRect.height;\n    const blockExtent = horizontal ? tableRect.height : tableRect.width;\n    const logicalRects = collapsedBorderLogicalRects(grid, trackLines(inlineSamples, inlineExtent), trackLines(blockSamples, blockExtent));\n    const snap = (start, size) => {\n      const rounded = Math.round(start);\n      return { start: rounded, size: Math.max(0, Math.round(start + size) - rounded) };\n    };\n    const physicalRects = logicalRects.map((rect) => {\n      let x, y, width, height;\n      if (horizontal) {\n        x = inlineReverse ? tableRect.right - rect.inlineStart - rect.inlineSize : tableRect.left + rect.inlineStart;\n        y = tableRect.top + rect.blockStart;\n        width = rect.inlineSize;\n        height = rect.blockSize;\n      } else {\n        x = blockReverse ? tableRect.right - rect.blockStart - rect.blockSize : tableRect.left + rect.blockStart;\n        y = inlineReverse ? tableRect.bottom - rect.inlineStart - rect.inlineSize : tableRect.top + rect.inlineStart;\n        width = rect.blockSize;\n        height = rect.inlineSize;\n      }\n      const sx = snap(x, width), sy = snap(y, height);\n      return { x: sx.start, y: sy.start, width: sx.size, height: sy.size, axis: rect.axis, style: rect.winner.style, color: rect.winner.color };\n    }).filter((rect) => rect.width > 0 && rect.height > 0);\n    table.__dmCollapsedCells = new Set(cells.map((meta) => meta.cell));\n    table.__dmCollapsedBorderRects = physicalRects;\n    return physicalRects;\n  };\n  const isCollapsedStructural = (tag, cs) => cs.borderCollapse === \"collapse\" && (tag === \"table\" || tag === \"tr\" || tag === \"thead\" || tag === \"tbody\" || tag === \"tfoot\" || tag === \"colgroup\" || tag === \"col\");\n  const captureBordersBackgrounds = (el, cs, tag, rect, isPlaceholderCapture, effectiveZoom = 1) => {\n    const backgroundImages = computeBackgroundImages(el, cs);\n    return {\n      tableGridRect: resolveTableGridRect(el, cs, tag, rect),\n      backgroundColor: (function() {\n        if (isPlaceholderCapture) {\n          const psBg = resolvePlaceholderShownBg(el);\n          if (psBg !== \"\") return normColor(psBg);\n        }\n        return normColor(cs.backgroundColor, cs.color);\n      })(),\n      borderColor: normColor(cs.borderColor, cs.color),\n      borderWidth: physicalComputedPaintLength(cs.borderWidth, effectiveZoom),\n      borderRadius: cs.borderRadius,\n      borderTopLeftRadius: resolveCornerRadius(cs.borderTopLeftRadius, rect.width, rect.height, effectiveZoom),\n      borderTopRightRadius: resolveCornerRadius(cs.borderTopRightRadius, rect.width, rect.height, effectiveZoom),\n      borderBottomRightRadius: resolveCornerRadius(cs.borderBottomRightRadius, rect.width, rect.height, effectiveZoom),\n      borderBottomLeftRadius: resolveCornerRadius(cs.borderBottomLeftRadius, rect.width, rect.height, effectiveZoom),\n      cornerTopLeftShape: cs.cornerTopLeftShape,\n      cornerTopRightShape: cs.cornerTopRightShape,\n      cornerBottomRightShape: cs.cornerBottomRightShape,\n      cornerBottomLeftShape: cs.cornerBottomLeftShape,\n      borderTopWidth: physicalComputedPaintLength(cs.borderTopWidth, effectiveZoom),\n      borderRightWidth: physicalComputedPaintLength(cs.borderRightWidth, effectiveZoom),\n      borderBottomWidth: physicalComputedPaintLength(cs.borderBottomWidth, effectiveZoom),\n      borderLeftWidth: physicalComputedPaintLength(cs.borderLeftWidth, effectiveZoom),\n      borderTopStyle: cs.borderTopStyle,\n      borderRightStyle: cs.borderRightStyle,\n      borderBottomStyle: cs.borderBottomStyle,\n      borderLeftStyle: cs.borderLeftStyle,\n      borderTopColor: tintedBorderColor(tag, el, cs, \"borderTopColor\"),\n      borderRightColor: tintedBorderColor(tag, el, cs, \"borderRightColor\"),\n      borderBottomColor: tintedBorderColor(tag, el, cs, \"borderBottomColor\"),\n      borderLeftColor: tintedBorderColor(tag, el, cs, \"borderLeftColor\"),\n      borderCollapse: cs.borderCollapse,\n      // DM-1260: full collapsed-border conflict resolution. For a cell, override\n      // each side with the resolved winning border (overlapping the adjacent cell's\n      // matching resolved side); for a collapsed structural element, suppress its\n      // box border (folded into the cells). Placed AFTER the per-side width/style/\n      // color fields above so it wins. Complex tables (no resolution) fall through.\n      ...(function() {\n        let collapsedTable = null;\n        if (cs.borderCollapse === \"collapse\") {\n          collapsedTable = tag === \"table\" ? el : el.closest && el.closest(\"table\");\n        }\n        const tableRects = collapsedTable != null ? resolveCollapsedTableRects(collapsedTable) : null;\n        if (tableRects != null && tag === \"table\") {\n          return {\n            collapsedBorderRects: tableRects,\n            borderTopStyle: \"none\",\n            borderRightStyle: \"none\",\n            borderBottomStyle: \"none\",\n            borderLeftStyle: \"none\",\n            borderTopWidth: \"0px\",\n            borderRightWidth: \"0px\",\n            borderBottomWidth: \"0px\",\n            borderLeftWidth: \"0px\",\n            borderWidth: \"0px\",\n            borderColor: \"rgba(0, 0, 0, 0)\"\n          };\n        }\n        if (tableRects != null && (isCollapsedStructural(tag, cs) || tag === \"td\" || tag === \"th\")) {\n          return {\n            borderTopStyle: \"none\",\n            borderRightStyle: \"none\",\n            borderBottomStyle: \"none\",\n            borderLeftStyle: \"none\",\n            borderTopWidth: \"0px\",\n            borderRightWidth: \"0px\",\n            borderBottomWidth: \"0px\",\n            borderLeftWidth: \"0px\",\n            borderWidth: \"0px\",\n            borderColor: \"rgba(0, 0, 0, 0)\"\n          };\n        }\n        if (isCollapsedStructural(tag, cs)) {\n          return {\n            borderTopStyle: \"none\",\n            borderRightStyle: \"none\",\n            borderBottomStyle: \"none\",\n            borderLeftStyle: \"none\",\n            borderTopWidth: \"0px\",\n            borderRightWidth: \"0px\",\n            borderBottomWidth: \"0px\",\n            borderLeftWidth: \"0px\",\n            // Also clear the shorthands — the renderer's legacy uniform-border path\n            // falls back to `borderWidth` / `borderColor` when the per-side parses\n            // resolve to a zero-width border, which would re-paint the structural box.\n            borderWidth: \"0px\",\n            borderColor: \"rgba(0, 0, 0, 0)\"\n          };\n        }\n        return {};\n      })(),\n      frostedBgFallback: computeFrostedBgFallback(cs),\n      backgroundImage: normGradientColors(cs.backgroundImage, cs.color),\n      backgroundSize: physicalComputedTileSize(cs.backgroundSize, effectiveZoom),\n      // Computed px terms are serialized before effective zoom, while the\n      // captured positioning/painting DOMRects are already physical. Blink's\n      // FillLayer stores zoomed Length values, so cross that boundary once here\n      // for position just as we already do for background-size.\n      backgroundPosition: physicalComputedTileSize(cs.backgroundPosition, effectiveZoom),\n      backgroundRepeat: cs.backgroundRepeat,\n      backgroundClip: cs.backgroundClip,\n      backgroundBlendMode: cs.backgroundBlendMode,\n      // DM-462: -webkit-text-fill-color is the property that actually makes\n      // the headline text transparent in the background-clip:text idiom\n      // (cs.color may still report a normal value).\n      webkitTextFillColor: cs.webkitTextFillColor || cs.WebkitTextFillColor || void 0,\n      // DM-749: Stripe's keynote-speaker headline pattern — a span with\n      // `background-image: <gradient>; background-clip: text; -webkit-text-\n      // fill-color: transparent` wraps a child div that holds the actual\n      // text. The gradient is on the parent but Chrome lets it paint through\n      // the child's glyphs because background-clip: text masks the gradient\n      // by the union of all descendant text shapes. When the element's own\n      // bg-image is none AND its text-fill-color is transparent AND an\n      // ancestor has background-clip: text with a gradient, capture that\n      // ancestor's gradient so the renderer can use it as the glyph fill.\n      ...(function() {\n        const ownTfc = cs.webkitTextFillColor || cs.WebkitTextFillColor || \"\";\n        if (!/^(rgba\\(0[^)]*?,\\s*0\\)|transparent)$/i.test(ownTfc.trim())) {\n          return { inheritedTextFillGradient: void 0 };\n        }\n        let p = el.parentElement;\n        let depth = 0;\n        while (p != null && depth < 8) {\n          const pcs = window.getComputedStyle(p);\n          const bc = (pcs.backgroundClip || \"\") + \" \" + (pcs.webkitBackgroundClip || \"\");\n          if (/\\btext\\b/i.test(bc) && pcs.backgroundImage && pcs.backgroundImage !== \"none\" && pcs.backgroundImage !== \"\") {\n            const prect = p.getBoundingClientRect();\n            return {\n              inheritedTextFillGradient: pcs.backgroundImage,\n              inheritedTextFillGradientRect: { x: prect.x, y: prect.y, width: prect.width, height: prect.height }\n            };\n          }\n          p = p.parentElement;\n          depth++;\n        }\n        return { inheritedTextFillGradient: void 0 };\n      })(),\n      // DM-719: `-webkit-text-stroke-width` / `-webkit-text-stroke-color` paint a\n      // stroke around each glyph outline. Captured so the renderer can add a\n      // `stroke` attribute to the text-path emission.\n      webkitTextStrokeWidth: cs.webkitTextStrokeWidth || cs.WebkitTextStrokeWidth || void 0,\n      webkitTextStrokeColor: cs.webkitTextStrokeColor || cs.WebkitTextStrokeColor || void 0,\n      paintOrder: cs.paintOrder || void 0,\n      backgroundOrigin: cs.backgroundOrigin,\n      backgroundAttachment: cs.backgroundAttachment,\n      backgroundImages,\n      // Compatibility projection only. The selected candidate and complete\n      // natural-sizing state live in backgroundImages.\n      backgroundIntrinsic: (() => {\n        return backgroundImages?.map((record) => record != null && record.naturalWidth != null && record.naturalHeight != null ? { w: record.naturalWidth, h: record.naturalHeight } : null);\n      })(),\n      borderImageSource: cs.borderImageSource,\n      borderImageSlice: cs.borderImageSlice,\n      borderImageWidth: cs.borderImageWidth,\n      borderImageOutset: cs.borderImageOutset,\n      borderImageRepeat: cs.borderImageRepeat,\n      borderImageIntrinsicWidth: computeBorderImageIntrinsic(cs, \"naturalWidth\"),\n      borderImageIntrinsicHeight: computeBorderImageIntrinsic(cs, \"naturalHeight\"),\n      outlineStyle: cs.outlineStyle,\n      outlineWidth: physicalComputedPaintLength(cs.outlineWidth, effectiveZoom),\n      outlineColor: normColor(cs.outlineColor),\n      outlineOffset: physicalComputedPaintLength(cs.outlineOffset, effectiveZoom),\n      boxShadow: cs.boxShadow,\n      // box-decoration-break: 'slice' (default) vs 'clone'. Drives per-fragment\n      // paint of wrapped inline elements; see CapturedElement.inlineFragments.\n      boxDecorationBreak: cs.boxDecorationBreak || cs.webkitBoxDecorationBreak || \"slice\"\n    };\n  };\n  return { captureBordersBackgrounds, isTableCellHiddenByEmptyCells };\n};\n\n// src/capture/script/walker/background-attachment.ts\nvar TRANSFORM_WILL_CHANGE = /* @__PURE__ */ new Set([\n  \"transform\",\n  \"transform-style\",\n  \"perspective\",\n  \"translate\",\n  \"rotate\",\n  \"scale\",\n  \"offset-path\",\n  \"offset-position\"\n]);\nvar splitLayers = (value) => {\n  const out = [];\n  let depth = 0;\n  let quote = \"\";\n  let escaped = false;\n  let start = 0;\n  for (let i = 0; i < value.length; i++) {\n    const ch = value[i];\n    if (escaped) {\n      escaped = false;\n      continue;\n    }\n    if (ch === \"\\\\\") {\n      escaped = true;\n      continue;\n    }\n    if (quote !== \"\") {\n      if (ch === quote) quote = \"\";\n      continue;\n    }\n    if (ch === '\"' || ch === \"'\") {\n      quote = ch;\n      continue;\n    }\n    if (ch === \"(\") depth++;\n    else if (ch === \")\") depth = Math.max(0, depth - 1);\n    else if (ch === \",\" && depth === 0) {\n      out.push(value.slice(start, i).trim());\n      start = i + 1;\n    }\n  }\n  out.push(value.slice(start).trim());\n  return out;\n};\nvar hasAnyTransformWillChange = (style) => {\n  if (style.willChange == null || style.willChange === \"\" || style.willChange === \"auto\") return false;\n  return style.willChange.split(/[\\s,]+/).some((token) => TRANSFORM_WILL_CHANGE.has(token.toLowerCase()));\n};\nvar hasPaintLayerTransform = (style) => {\n  if (style.transform != null && style.transform !== \"\" && style.transform !== \"none\" || style.translate != null && style.translate !== \"\" && style.translate !== \"none\" || style.rotate != null && style.rotate !== \"\" && style.rotate !== \"none\" || style.scale != null && style.scale !== \"\" && style.scale !== \"none\") return true;\n  return style.offsetPath != null && style.offsetPath !== \"\" && style.offsetPath !== \"none\";\n};\nvar isVisibleCanvasBackground = (style) => {\n  const image = style.backgroundImage;\n  const color = style.backgroundColor;\n  return image != null && image !== \"\" && image !== \"none\" || color != null && color !== \"\" && color !== \"transparent\" && color !== \"rgba(0, 0, 0, 0)\" && color !== \"rgba(0,0,0,0)\";\n};\nvar createBackgroundAttachmentHandler = ({ vp, transformRelatedBoxFor, effectiveZoomFor, scrollbarPropertyKey }) => {\n  const fixedToViewport = (el) => {\n    const doc = el.ownerDocument;\n    const root = doc.documentElement;\n    if (el === root) return true;\n    for (let current = el; current != null && current !== root; current = current.parentElement) {\n      const style = (current.ownerDocument.defaultView || window).getComputedStyle(current);\n      if (transformRelatedBoxFor(current) === false) continue;\n      if (hasPaintLayerTransform(style) || hasAnyTransformWillChange(style)) return false;\n    }\n    return true;\n  };\n  const canvasOwner = (doc) => {\n    const root = doc.documentElement;\n    const body = doc.body;\n    if (root != null && isVisibleCanvasBackground((doc.defaultView || window).getComputedStyle(root))) return root;\n    return body;\n  };\n  const overflowClip = (el, rect, border, scaleX, scaleY) => {\n    let x = rect.left - vp.x + border.left;\n    let y = rect.top - vp.y + border.top;\n    let width = Math.max(0, rect.width - border.left - border.right);\n    let height = Math.max(0, rect.height - border.top - border.bottom);\n    const scrollbarSet = typeof scrollbarPropertyKey === \"string\" && scrollbarPropertyKey !== \"\" ? el[scrollbarPropertyKey] : void 0;\n    if (scrollbarSet != null && scrollbarSet.overlay === false) {\n      const vertical = scrollbarSet.vertical && scrollbarSet.vertical.frameRect;\n      if (vertical != null) {\n        if (scrollbarSet.vertical.logicalSide === \"left\") {\n          const edge = vertical.x + vertical.width;\n          const shrink = Math.max(0, edge - x);\n          x += shrink;\n          width = Math.max(0, width - shrink);\n        } else {\n          width = Math.max(0, Math.min(width, vertical.x - x));\n        }\n      }\n      const horizontal = scrollbarSet.horizontal && scrollbarSet.horizontal.frameRect;\n      if (horizontal != null) height = Math.max(0, Math.min(height, horizontal.y - y));\n    } else if (scrollbarSet == null) {\n      const clientWidth = Number(el.clientWidth) * scaleX;\n      const clientHeight = Number(el.clientHeight) * scaleY;\n      if (clientWidth > 0 && width - clientWidth > 0.5) width = clientWidth;\n      if (clientHeight > 0 && height - clientHeight > 0.5) height = clientHeight;\n    }\n    return { x, y, width, height };\n  };\n  const captureBackgroundAttachment = (el, style, rect, scaleX = 1, scaleY = 1) => {\n    const attachments = splitLayers(style.backgroundAttachment || \"scroll\");\n    const needsFixed = attachments.includes(\"fixed\");\n    const needsLocal = attachments.includes(\"local\");\n    const doc = el.ownerDocument;\n    const root = doc.documentElement;\n    const ownsCanvas = el === canvasOwner(doc) && isVisibleCanvasBackground(style);\n    if (!needsFixed && !needsLocal && !ownsCanvas) return void 0;\n    const zoom = effectiveZoomFor(el);\n    const physicalX = Number.isFinite(scaleX) && scaleX > 0 ? scaleX : zoom;\n    const physicalY = Number.isFinite(scaleY) && scaleY > 0 ? scaleY : zoom;\n    const border = {\n      top: (parseFloat(style.borderTopWidth) || 0) * physicalY,\n      right: (parseFloat(style.borderRightWidth) || 0) * physicalX,\n      bottom: (parseFloat(style.borderBottomWidth) || 0) * physicalY,\n      left: (parseFloat(style.borderLeftWidth) || 0) * physicalX\n    };\n    const rootRect = root.getBoundingClientRect();\n    const rootZoom = effectiveZoomFor(root);\n    const localScrollContainer = [\"auto\", \"hidden\", \"overlay\", \"scroll\"].includes(style.overflowX) || [\"auto\", \"hidden\", \"overlay\", \"scroll\"].includes(style.overflowY);\n    return {\n      source: \"blink-box-background-paint-context-v1\",\n      fixedToViewport: needsFixed ? fixedToViewport(el) : false,\n      layoutViewport: {\n        x: -vp.x,\n        y: -vp.y,\n        // Root clientHeight may expose the stitched document height when the\n        // root box itself is unconstrained. The layout viewport never exceeds\n        // innerWidth/innerHeight; client* is only the scrollbar-excluding cap.\n        width: Math.min((doc.defaultView || window).innerWidth, doc.documentElement.clientWidth),\n        height: Math.min((doc.defaultView || window).innerHeight, doc.documentElement.clientHeight)\n      },\n      local: needsLocal ? {\n        active: localScrollContainer,\n        // ScrollOffsetInt is the physical, pixel-snapped offset. CSSOM scroll\n        // positions are zoom-adjusted, so cross that boundary before snapping.\n        scrollOffsetX: Math.round(Number(el.scrollLeft || 0) * zoom) * (physicalX / zoom),\n        scrollOffsetY: Math.round(Number(el.scrollTop || 0) * zoom) * (physicalY / zoom),\n        borderPaintWidth: Number(el.scrollWidth || 0) * physicalX + border.left + border.right,\n        borderPaintHeight: Number(el.scrollHeight || 0) * physicalY + border.top + border.bottom,\n        overflowClip: overflowClip(el, rect, border, physicalX, physicalY)\n      } : void 0,\n      canvas: ownsCanvas ? {\n        owner: el === root ? \"root\" : \"body-propagated\",\n        positioningRect: {\n          x: rootRect.left - vp.x,\n          y: rootRect.top - vp.y,\n          width: Math.max(rootRect.width, Number(root.scrollWidth || 0) * rootZoom),\n          height: Math.max(rootRect.height, Number(root.scrollHeight || 0) * rootZoom)\n        }\n      } : void 0\n    };\n  };\n  return { captureBackgroundAttachment };\n};\n\n// src/capture/script/walker/pseudo-content.ts\nvar pseudoCanvasFont = (pcs) => (pcs.fontStyle || \"normal\") + \" \" + (pcs.fontWeight || \"normal\") + \" \" + (pcs.fontSize || \"16px\") + \" \" + (pcs.fontFamily || \"sans-serif\");\nvar buildPseudoContentHandler = ({\n  vp,\n  normColor,\n  measureFontMetrics,\n  textNeedsRaster,\n  resolveCounterValue,\n  isCustomCounterStyle,\n  composeEffectiveTransform: composeEffectiveTransform2,\n  effectiveZoomFor = () => 1,\n  physicalComputedCssPixelTerms = (value) => value\n}) => {\n  const physicalFilter = (el, value) => value && value !== \"none\" ? physicalComputedCssPixelTerms(value, effectiveZoomFor(el)) : void 0;\n  const physicalNumber = (el, value) => {\n    const number = parseFloat(value);\n    return Number.isFinite(number) ? number * effectiveZoomFor(el) : 0;\n  };\n  const physicalTransform = (el, value) => {\n    const zoom = effectiveZoomFor(el);\n    if (!value || value === \"none\" || zoom === 1) return value;\n    const m2 = /^matrix\\(([^)]+)\\)$/.exec(value);\n    if (m2 != null) {\n      const parts = m2[1].split(\",\").map((part) => parseFloat(part));\n      if (parts.length === 6 && parts.every(Number.isFinite)) {\n        parts[4] *= zoom;\n        parts[5] *= zoom;\n        return `matrix(${parts.join(\", \")})`;\n      }\n    }\n    const m3 = /^matrix3d\\(([^)]+)\\)$/.exec(value);\n    if (m3 != null) {\n      const parts = m3[1].split(\",\").map((part) => parseFloat(part));\n      if (parts.length === 16 && parts.every(Number.isFinite)) {\n        parts[12] *= zoom;\n        parts[13] *= zoom;\n        parts[14] *= zoom;\n        return `matrix3d(${parts.join(\", \")})`;\n      }\n    }\n    return value;\n  };\n  let _emojiAdvCv = null;\n  let _emojiAdvCtx = null;\n  const measureGlyphAdvance = (s, pcs) => {\n    if (_emojiAdvCtx == null) {\n      _emojiAdvCv = document.createElement(\"canvas\");\n      _emojiAdvCtx = _emojiAdvCv.getContext(\"2d\");\n    }\n    _emojiAdvCtx.font = pseudoCanvasFont(pcs);\n    return _emojiAdvCtx.measureText(s).width;\n  };\n  const probeGeneratedPseudoLayout = (el, pseudo, text, pcs) => {\n    const span = document.createElement(\"span\");\n    for (let i = 0; i < pcs.length; i++) {\n      const name = pcs.item(i);\n      span.style.setProperty(name, pcs.getPropertyValue(name));\n    }\n    span.style.setProperty(\"content\", \"normal\");\n    span.style.setProperty(\"visibility\", \"hidden\");\n    span.style.setProperty(\"pointer-events\", \"none\");\n    span.style.setProperty(\"transform\", \"none\");\n    span.style.setProperty(\"translate\", \"none\");\n    span.style.setProperty(\"rotate\", \"none\");\n    span.style.setProperty(\"scale\", \"none\");\n    span.textContent = text;\n    if (pseudo === \"::before\") el.insertBefore(span, el.firstChild);\n    else el.appendChild(span);\n    const borderRect = span.getBoundingClientRect();\n    const range = document.createRange();\n    range.selectNodeContents(span);\n    const textRect = range.getBoundingClientRect();\n    const result = {\n      borderRect: { left: borderRect.left, top: borderRect.top, width: borderRect.width, height: borderRect.height },\n      textRect: { left: textRect.left, top: textRect.top, width: textRect.width, height: textRect.height }\n    };\n    span.remove();\n    return result;\n  };\n  const probePseudoStaticBoxRect = (el, pseudo, pcs) => {\n    const probe = document.createElement(\"span\");\n    probe.style.cssText = \"pointer-events:none;visibility:hidden;box-sizing:content-box\";\n    probe.style.display = pcs.display;\n    probe.style.width = pcs.width;\n    probe.style.height = pcs.height;\n    probe.style.paddingTop = pcs.paddingTop;\n    probe.style.paddingRight = pcs.paddingRight;\n    probe.style.paddingBottom = pcs.paddingBottom;\n    probe.style.paddingLeft = pcs.paddingLeft;\n    probe.style.borderTopWidth = pcs.borderTopWidth;\n    probe.style.borderRightWidth = pcs.borderRightWidth;\n    probe.style.borderBottomWidth = pcs.borderBottomWidth;\n    probe.style.borderLeftWidth = pcs.borderLeftWidth;\n    probe.style.borderStyle = \"solid\";\n    probe.style.borderColor = \"transparent\";\n    probe.style.marginTop = pcs.marginTop;\n    probe.style.marginRight = pcs.marginRight;\n    probe.style.marginBottom = pcs.marginBottom;\n    probe.style.marginLeft = pcs.marginLeft;\n    probe.style.verticalAlign = pcs.verticalAlign;\n    probe.style.font = \"\";\n    if (pseudo === \"::before\") el.insertBefore(probe, el.firstChild);\n    else el.appendChild(probe);\n    const r = probe.getBoundingClientRect();\n    probe.remove();\n    return r;\n  };\n  const probePseudoAbsoluteBoxRect = (el, pseudo, pcs) => {\n    const probe = document.createElement(\"div\");\n    probe.style.cssText = \"pointer-events:none;visibility:hidden;box-sizing:content-box;margin:0\";\n    probe.style.position = pcs.position;\n    probe.style.top = pcs.top;\n    probe.style.right = pcs.right;\n    probe.style.bottom = pcs.bottom;\n    probe.style.left = pcs.left;\n    probe.style.width = pcs.width;\n    probe.style.height = pcs.height;\n    probe.style.paddingTop = pcs.paddingTop;\n    probe.style.paddingRight = pcs.paddingRight;\n    probe.style.paddingBottom = pcs.paddingBottom;\n    probe.style.paddingLeft = pcs.paddingLeft;\n    probe.style.borderTopWidth = pcs.borderTopWidth;\n    probe.style.borderRightWidth = pcs.borderRightWidth;\n    probe.style.borderBottomWidth = pcs.borderBottomWidth;\n    probe.style.borderLeftWidth = pcs.borderLeftWidth;\n    probe.style.borderStyle = \"solid\";\n    probe.style.borderColor = \"transparent\";\n    probe.style.marginTop = pcs.marginTop;\n    probe.style.marginRight = pcs.marginRight;\n    probe.style.marginBottom = pcs.marginBottom;\n    probe.style.marginLeft = pcs.marginLeft;\n    probe.style.transform = \"\";\n    probe.style.transformOrigin = \"\";\n    if (pseudo === \"::before\") el.insertBefore(probe, el.firstChild);\n    else el.appendChild(probe);\n    const r = probe.getBoundingClientRect();\n    probe.remove();\n    return r;\n  };\n  const pickQuoteChar = (forEl, isOpen) => {\n    let depth = 0;\n    let p = forEl.parentElement;\n    while (p != null) {\n      if (p.tagName === \"Q\") depth++;\n      p = p.parentElement;\n    }\n    const cs = window.getComputedStyle(forEl).quotes;\n    if (cs == null || cs === \"\" || cs === \"none\" || cs === \"auto\") {\n      const pairs = [[\"\\u201C\", \"\\u201D\"], [\"\\u2018\", \"\\u2019\"]];\n      const pair = pairs[Math.min(depth, pairs.length - 1)];\n      return isOpen ? pair[0] : pair[1];\n    }\n    const tokens = [];\n    let i = 0;\n    while (i < cs.length) {\n      if (cs[i] === '\"') {\n        let j = i + 1;\n        let s = \"\";\n        while (j < cs.length && cs[j] !== '\"') {\n          if (cs[j] === \"\\\\\") {\n            s += cs[j + 1];\n            j += 2;\n          } else {\n            s += cs[j];\n            j++;\n          }\n        }\n        tokens.push(s);\n        i = j + 1;\n      } else {\n        i++;\n      }\n    }\n    if (tokens.length < 2) {\n      const pair = [\"\\u201C\", \"\\u201D\"];\n      return isOpen ? pair[0] : pair[1];\n    }\n    const pairIdx = Math.min(depth, Math.floor((tokens.length - 1) / 2));\n    return isOpen ? tokens[pairIdx * 2] : tokens[pairIdx * 2 + 1];\n  };\n  const parsePseudoContent = (content, el, counterSnapshot, pseudo) => {\n    let text = \"\";\n    let imageUrl = \"\";\n    let i = 0;\n    while (i < content.length) {\n      const c = content[i];\n      if (c === '\"' || c === \"'\") {\n        const end = content.indexOf(c, i + 1);\n        if (end < 0) break;\n        text += content.slice(i + 1, end);\n        i = end + 1;\n      } else if (content.startsWith(\"attr(\", i)) {\n        const end = content.indexOf(\")\", i);\n        if (end < 0) break;\n        const attrName = content.slice(i + 5, end).trim();\n        text += el.getAttribute(attrName) || \"\";\n        i = end + 1;\n      } else if (content.startsWith(\"url(\", i)) {\n        const end = content.indexOf(\")\", i);\n        if (end < 0) break;\n        let url = content.slice(i + 4, end).trim();\n        if (url.startsWith('\"') && url.endsWith('\"') || url.startsWith(\"'\") && url.endsWith(\"'\")) {\n          url = url.slice(1, -1);\n        }\n        imageUrl = url;\n        i = end + 1;\n      } else if (content.startsWith(\"counter(\", i) || content.startsWith(\"counters(\", i)) {\n        const isCounters = content.startsWith(\"counters(\", i);\n        const openIdx = i + (isCounters ? \"counters(\".length : \"counter(\".length);\n        const closeIdx = content.indexOf(\")\", openIdx);\n        if (closeIdx < 0) {\n          i++;\n          continue;\n        }\n        const args = content.slice(openIdx, closeIdx).split(\",\").map((s) => {\n          const t = s.trim();\n          if (t.startsWith('\"') && t.endsWith('\"') || t.startsWith(\"'\") && t.endsWith(\"'\")) {\n            return t.slice(1, -1);\n          }\n          return t;\n        });\n        const cname = args[0];\n        const sep = isCounters ? args[1] ?? \"\" : \"\";\n        const styleArg = isCounters ? args[2] : args[1];\n        const useStyle = styleArg != null && styleArg !== \"\" && resolveCounterValue != null;\n        const format = (v) => {\n          if (!useStyle) return String(v);\n          const out = resolveCounterValue(styleArg, v);\n          return out != null ? out : String(v);\n        };\n        const captured = counterSnapshot.get(el);\n        const snapshot = captured?.[pseudo] ?? captured?.element ?? captured ?? [];\n        const matches = snapshot.filter((s) => s.name === cname).map((s) => format(s.value));\n        if (isCounters) {\n          text += matches.length > 0 ? matches.join(sep) : format(0);\n        } else {\n          text += matches.length > 0 ? matches[matches.length - 1] : format(0);\n        }\n        i = closeIdx + 1;\n      } else if (content.startsWith(\"open-quote\", i)) {\n        text += pickQuoteChar(el, true);\n        i += \"open-quote\".length;\n      } else if (content.startsWith(\"close-quote\", i)) {\n        text += pickQuoteChar(el, false);\n        i += \"close-quote\".length;\n      } else if (content.startsWith(\"no-open-quote\", i)) {\n        i += \"no-open-quote\".length;\n      } else if (content.startsWith(\"no-close-quote\", i)) {\n        i += \"no-close-quote\".length;\n      } else {\n        i++;\n      }\n    }\n    return { text, imageUrl };\n  };\n  const captureEmptyContentBox = (el, cs, pseudo, pcs, rect) => {\n    const bgRaw = pcs.backgroundColor;\n    const hasBg = bgRaw && bgRaw !== \"\" && bgRaw !== \"rgba(0, 0, 0, 0)\" && bgRaw !== \"transparent\";\n    const bgImgRaw = pcs.backgroundImage;\n    const hasBgImg = hasCssValue(bgImgRaw);\n    const rawBorderWidths = sideWidths(pcs, \"border\", \"Width\");\n    const bwT = rawBorderWidths.top * effectiveZoomFor(el);\n    const bwR = rawBorderWidths.right * effectiveZoomFor(el);\n    const bwB = rawBorderWidths.bottom * effectiveZoomFor(el);\n    const bwL = rawBorderWidths.left * effectiveZoomFor(el);\n    const hasBorder = bwT > 0 || bwR > 0 || bwB > 0 || bwL > 0;\n    const isBlockLike = pcs.display === \"block\" || pcs.display === \"inline-block\" || pcs.display === \"flex\";\n    if (isBlockLike && (hasBg || hasBgImg || hasBorder)) {\n      const zoom = effectiveZoomFor(el);\n      const hostPadL = physicalNumber(el, cs.paddingLeft);\n      const hostPadT = physicalNumber(el, cs.paddingTop);\n      const hostBorL = physicalNumber(el, cs.borderLeftWidth);\n      const hostBorT = physicalNumber(el, cs.borderTopWidth);\n      const hostBorR = physicalNumber(el, cs.borderRightWidth);\n      const pMarL = physicalNumber(el, pcs.marginLeft);\n      const rawPadding = sideWidths(pcs, \"padding\", \"\");\n      const pPadL = rawPadding.left * zoom;\n      const pPadR = rawPadding.right * zoom;\n      const pPadT = rawPadding.top * zoom;\n      const pPadB = rawPadding.bottom * zoom;\n      const hostContentW = rect.width - hostBorL - hostBorR - hostPadL - physicalNumber(el, cs.paddingRight);\n      const pcsW = parseFloat(pcs.width);\n      const pcsH = parseFloat(pcs.height);\n      const contentW = !isNaN(pcsW) ? pcsW * zoom : hostContentW - pMarL - physicalNumber(el, pcs.marginRight);\n      const contentH = !isNaN(pcsH) ? pcsH * zoom : 0;\n      const borderBoxW = contentW + pPadL + pPadR + bwL + bwR;\n      const borderBoxH = contentH + pPadT + pPadB + bwT + bwB;\n      let borderBoxX;\n      let borderBoxY;\n      if (pcs.position === \"absolute\" || pcs.position === \"fixed\") {\n        const pr = probePseudoAbsoluteBoxRect(el, pseudo, pcs);\n        borderBoxX = pr.left - vp.x;\n        borderBoxY = pr.top - vp.y;\n      } else {\n        const pMarT = physicalNumber(el, pcs.marginTop);\n        borderBoxX = rect.left - vp.x + hostBorL + hostPadL + pMarL;\n        borderBoxY = rect.top - vp.y + hostBorT + hostPadT + pMarT;\n        const hostFlex = cs.display === \"flex\" || cs.display === \"inline-flex\";\n        const justify = cs.justifyContent || \"\";\n        const pushesEnd = justify.indexOf(\"space-between\") >= 0 || justify.indexOf(\"flex-end\") >= 0 || justify === \"end\" || justify === \"right\";\n        if (pseudo === \"::after\" && hostFlex && pushesEnd) {\n          const hostPadR = physicalNumber(el, cs.paddingRight);\n          const pMarR = physicalNumber(el, pcs.marginRight);\n          borderBoxX = rect.right - vp.x - hostBorR - hostPadR - pMarR - borderBoxW;\n          if (cs.alignItems === \"center\") {\n            const hostBorB = physicalNumber(el, cs.borderBottomWidth);\n            const hostPadB = physicalNumber(el, cs.paddingBottom);\n            const contentH2 = rect.height - hostBorT - hostBorB - hostPadT - hostPadB;\n            borderBoxY = rect.top - vp.y + hostBorT + hostPadT + (contentH2 - borderBoxH) / 2 + pMarT;\n          }\n        }\n        const dispIsInline = pcs.display === \"inline-block\" || pcs.display === \"inline-flex\" || pcs.display === \"inline-grid\" || pcs.display === \"inline-table\";\n        if (dispIsInline) {\n          const pr = probePseudoStaticBoxRect(el, pseudo, pcs);\n          borderBoxY = pr.top - vp.y;\n          if (pseudo === \"::after\") {\n            borderBoxX = pr.left - vp.x;\n          } else {\n            const pMarR = physicalNumber(el, pcs.marginRight);\n            borderBoxX = pr.left - vp.x - pMarR - borderBoxW - pMarL;\n          }\n        }\n      }\n      let degenerateHostTransform = false;\n      if (cs.transform && cs.transform !== \"none\") {\n        const m2 = /^matrix\\(\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)/.exec(cs.transform);\n        if (m2) {\n          const a = parseFloat(m2[1]);\n          const b = parseFloat(m2[2]);\n          const c = parseFloat(m2[3]);\n          const d = parseFloat(m2[4]);\n          if (Math.abs(a * d - b * c) < 1e-9) degenerateHostTransform = true;\n        }\n      }\n      if (borderBoxW > 0 && borderBoxH > 0 && !degenerateHostTransform) {\n        const pcsComposedRaw = composeEffectiveTransform2 != null ? composeEffectiveTransform2(pcs) : pcs.transform || \"none\";\n        const pcsComposed = physicalTransform(el, pcsComposedRaw);\n        const pcsTransform = pcsComposed && pcsComposed !== \"none\" ? pcsComposed : void 0;\n        const pcsTransformOrigin = pcsTransform != null ? physicalComputedCssPixelTerms(pcs.transformOrigin || \"\", zoom) || void 0 : void 0;\n        const pcsZ = parseInt(pcs.zIndex, 10);\n        const pcsZIndex = Number.isFinite(pcsZ) ? pcsZ : void 0;\n        const pcsFilter = physicalFilter(el, pcs.filter);\n        return {\n          // DM-1001: track which pseudo emitted this box so the renderer\n          // can paint ::after pseudo-elements AFTER the host's text (the\n          // CSS render order). The earlier \"emit all pseudoBoxes ahead of\n          // text\" gate (line 2370) is right for ::before but wrong for\n          // ::after — NYT's right-edge fade-out overlays the headline\n          // text via `::after { background: linear-gradient(transparent,\n          // white) }`, so painting it under the text leaves the headline\n          // sharp instead of fading.\n          pseudo,\n          x: borderBoxX,\n          y: borderBoxY,\n          width: borderBoxW,\n          height: borderBoxH,\n          backgroundColor: hasBg ? normColor(bgRaw) : void 0,\n          backgroundImage: hasBgImg ? bgImgRaw : void 0,\n          // DM-1121: a gradient pseudo's background-position / -size and its\n          // own opacity steer where the gradient core lands and how strong it\n          // paints (Stripe's keynote glow is an off-center, 45%-opacity pink\n          // radial). Capture position/size only alongside a background-image,\n          // and opacity only when it actually dims the box (< 1).\n          backgroundPosition: hasBgImg ? physicalComputedCssPixelTerms(pcs.backgroundPosition, zoom) : void 0,\n          backgroundSize: hasBgImg ? physicalComputedCssPixelTerms(pcs.backgroundSize, zoom) : void 0,\n          opacity: (function() {\n            var o = parseFloat(pcs.opacity);\n            return isFinite(o) && o < 1 ? o : void 0;\n          })(),\n          borderTopWidth: bwT,\n          borderTopColor: bwT > 0 ? normColor(pcs.borderTopColor) : void 0,\n          borderTopStyle: pcs.borderTopStyle,\n          borderRightWidth: bwR,\n          borderRightColor: bwR > 0 ? normColor(pcs.borderRightColor) : void 0,\n          borderRightStyle: pcs.borderRightStyle,\n          borderBottomWidth: bwB,\n          borderBottomColor: bwB > 0 ? normColor(pcs.borderBottomColor) : void 0,\n          borderBottomStyle: pcs.borderBottomStyle,\n          borderLeftWidth: bwL,\n          borderLeftColor: bwL > 0 ? normColor(pcs.borderLeftColor) : void 0,\n          borderLeftStyle: pcs.borderLeftStyle,\n          borderRadius: physicalNumber(el, pcs.borderRadius),\n          transform: pcsTransform,\n          transformOrigin: pcsTransformOrigin,\n          zIndex: pcsZIndex,\n          filter: pcsFilter\n        };\n      }\n    }\n    return null;\n  };\n  const capturePseudoContent = (el, cs, rect, counterSnapshot) => {\n    const pseudoSegments = [];\n    const pseudoBoxes = [];\n    for (const pseudo of [\"::before\", \"::after\"]) {\n      const pcs = window.getComputedStyle(el, pseudo);\n      const content = pcs.content;\n      if (content == null || content === \"none\" || content === \"normal\" || content === \"\") continue;\n      const opacityNum = parseFloat(pcs.opacity);\n      if (Number.isFinite(opacityNum) && opacityNum === 0) continue;\n      const { text, imageUrl } = parsePseudoContent(content, el, counterSnapshot, pseudo);\n      if (text === \"\" && imageUrl === \"\") {\n        const box = captureEmptyContentBox(el, cs, pseudo, pcs, rect);\n        if (box != null) pseudoBoxes.push(box);\n        continue;\n      }\n      if (imageUrl !== \"\" && text === \"\") {\n        const probeImg = new Image();\n        probeImg.src = imageUrl;\n        const imageZoom = effectiveZoomFor(el);\n        const intrinsicW = (probeImg.naturalWidth || 0) * imageZoom;\n        const intrinsicH = (probeImg.naturalHeight || 0) * imageZoom;\n        let layoutW = (parseFloat(pcs.width) || 0) * imageZoom;\n        let layoutH = (parseFloat(pcs.height) || 0) * imageZoom;\n        if (layoutW <= 0) layoutW = intrinsicW || 24;\n        if (layoutH <= 0) layoutH = intrinsicH || 24;\n        const renderW = intrinsicW > 0 ? intrinsicW : layoutW;\n        const renderH = intrinsicH > 0 ? intrinsicH : layoutH;\n        const elTop2 = rect.top - vp.y + physicalNumber(el, cs.paddingTop) + physicalNumber(el, cs.borderTopWidth);\n        const elLeft2 = rect.left - vp.x + physicalNumber(el, cs.paddingLeft) + physicalNumber(el, cs.borderLeftWidth);\n        const elFontSizeForImg = (parseFloat(pcs.fontSize) || 14) * imageZoom;\n        const lineHImg = (parseFloat(pcs.lineHeight) || (parseFloat(pcs.fontSize) || 14) * 1.2) * imageZoom;\n        const yPosImg = elTop2 + (lineHImg - layoutH) / 2;\n        const imageComposedRaw = composeEffectiveTransform2 != null ? composeEffectiveTransform2(pcs) : pcs.transform || \"none\";\n        const imageComposed = physicalTransform(el, imageComposedRaw);\n        const imageTransform = imageComposed && imageComposed !== \"none\" ? imageComposed : void 0;\n        const imageOpacity = parseFloat(pcs.opacity);\n        pseudoSegments.push({\n          isBefore: pseudo === \"::before\",\n          imageUrl,\n          seg: { text: \"\", x: elLeft2, y: yPosImg, width: layoutW, height: layoutH },\n          renderWidth: renderW,\n          renderHeight: renderH,\n          color: pcs.color,\n          boxMarginLeft: physicalNumber(el, pcs.marginLeft),\n          boxMarginRight: physicalNumber(el, pcs.marginRight),\n          boxBorderLeft: physicalNumber(el, pcs.borderLeftWidth),\n          boxBorderRight: physicalNumber(el, pcs.borderRightWidth),\n          boxPaddingLeft: physicalNumber(el, pcs.paddingLeft),\n          boxPaddingRight: physicalNumber(el, pcs.paddingRight),\n          filter: physicalFilter(el, pcs.filter),\n          opacity: Number.isFinite(imageOpacity) && imageOpacity < 1 ? imageOpacity : void 0,\n          transform: imageTransform,\n          transformOrigin: imageTransform != null ? physicalComputedCssPixelTerms(pcs.transformOrigin || \"\", imageZoom) || void 0 : void 0\n        });\n        continue;\n      }\n      if (text === \"\") continue;\n      const pseudoLayout = probeGeneratedPseudoLayout(el, pseudo, text, pcs);\n      const pPadLMeasured = parseFloat(pcs.paddingLeft) || 0;\n      const pPadRMeasured = parseFloat(pcs.paddingRight) || 0;\n      const pBorLMeasured = parseFloat(pcs.borderLeftWidth) || 0;\n      const pBorRMeasured = parseFloat(pcs.borderRightWidth) || 0;\n      const measuredContentWidth = Math.max(0, pseudoLayout.borderRect.width - pPadLMeasured - pPadRMeasured - pBorLMeasured - pBorRMeasured);\n      const hasUsedBoxWidth = pcs.width !== \"\" && pcs.width !== \"auto\" && (pcs.position === \"absolute\" || pcs.position === \"fixed\");\n      const pseudoWidth = hasUsedBoxWidth ? measuredContentWidth : pseudoLayout.textRect.width > 0 ? pseudoLayout.textRect.width : measuredContentWidth;\n      const elTop = rect.top - vp.y + (parseFloat(cs.paddingTop) || 0) + (parseFloat(cs.borderTopWidth) || 0);\n      const elLeft = rect.left - vp.x + (parseFloat(cs.paddingLeft) || 0) + (parseFloat(cs.borderLeftWidth) || 0);\n      const elFontSize = parseFloat(pcs.fontSize) || 14;\n      const lineH = parseFloat(pcs.lineHeight) || elFontSize * 1.2;\n      const pseudoMetrics = measureFontMetrics(pcs);\n      let xPos;\n      let yPos;\n      let pseudoIsPositioned = false;\n      if (pcs.position === \"absolute\" || pcs.position === \"fixed\") {\n        const pcsLeft = parseFloat(pcs.left);\n        const pcsTop = parseFloat(pcs.top);\n        const pcsRight = parseFloat(pcs.right);\n        const pcsBottom = parseFloat(pcs.bottom);\n        const paddingBoxLeft = rect.left - vp.x + (parseFloat(cs.borderLeftWidth) || 0);\n        const paddingBoxTop = rect.top - vp.y + (parseFloat(cs.borderTopWidth) || 0);\n        const paddingBoxRight = rect.right - vp.x - (parseFloat(cs.borderRightWidth) || 0);\n        const paddingBoxBottom = rect.bottom - vp.y - (parseFloat(cs.borderBottomWidth) || 0);\n        const pPadL = parseFloat(pcs.paddingLeft) || 0;\n        const pPadR = parseFloat(pcs.paddingRight) || 0;\n        const pPadT = parseFloat(pcs.paddingTop) || 0;\n        const pPadB = parseFloat(pcs.paddingBottom) || 0;\n        const pBorL = parseFloat(pcs.borderLeftWidth) || 0;\n        const pBorR = parseFloat(pcs.borderRightWidth) || 0;\n        const pBorT = parseFloat(pcs.borderTopWidth) || 0;\n        const pBorB = parseFloat(pcs.borderBottomWidth) || 0;\n        if (!isNaN(pcsLeft)) xPos = paddingBoxLeft + pcsLeft;\n        else if (!isNaN(pcsRight)) xPos = paddingBoxRight - pcsRight - pseudoWidth - pPadL - pPadR - pBorL - pBorR;\n        else xPos = paddingBoxLeft;\n        if (!isNaN(pcsTop)) yPos = paddingBoxTop + pcsTop;\n        else if (!isNaN(pcsBottom)) yPos = paddingBoxBottom - pcsBottom - lineH - pPadT - pPadB - pBorT - pBorB;\n        else yPos = paddingBoxTop;\n        xPos += pPadL + pBorL;\n        yPos += pPadT + pBorT;\n        yPos += (lineH - elFontSize) / 2;\n        pseudoIsPositioned = true;\n      } else {\n        yPos = elTop + (lineH - elFontSize) / 2;\n        const pcsMarginL = parseFloat(pcs.marginLeft) || 0;\n        const pcsBorderL = parseFloat(pcs.borderLeftWidth) || 0;\n        const pcsPaddingL = parseFloat(pcs.paddingLeft) || 0;\n        const justify = cs.justifyContent || \"\";\n        const hostFlex = cs.display === \"flex\" || cs.display === \"inline-flex\";\n        const pushesEnd = justify.indexOf(\"space-between\") >= 0 || justify.indexOf(\"flex-end\") >= 0 || justify === \"end\" || justify === \"right\";\n        if (pseudo === \"::before\") {\n          xPos = elLeft + pcsMarginL + pcsBorderL + pcsPaddingL;\n        } else if (hostFlex && pushesEnd) {\n          const contentRight = rect.right - vp.x - (parseFloat(cs.borderRightWidth) || 0) - (parseFloat(cs.paddingRight) || 0);\n          xPos = contentRight - pseudoWidth;\n        } else {\n          xPos = elLeft + rect.width - pseudoWidth - 2 * (parseFloat(cs.paddingRight) || 0);\n        }\n      }\n      const pseudoSeg = {\n        text,\n        x: xPos,\n        y: yPos,\n        width: pseudoWidth,\n        height: elFontSize,\n        // Carry pseudo-specific typography so the renderer can respect\n        // per-pseudo color, font-size, font-weight, font-family, font-style\n        // (CSS lets pseudos style independently of their parent — Slashdot's\n        // \"Most Discussed\" carousel heading is a ::after that's italic+bordered\n        // on a non-italic host div).\n        color: pcs.color,\n        fontSize: elFontSize,\n        fontWeight: pcs.fontWeight,\n        fontFamily: pcs.fontFamily,\n        fontStyle: pcs.fontStyle,\n        fontAscent: pseudoMetrics.ascent\n      };\n      const pseudoBgRaw = pcs.backgroundColor;\n      const pseudoBgColor = pseudoBgRaw && pseudoBgRaw !== \"\" && pseudoBgRaw !== \"rgba(0, 0, 0, 0)\" && pseudoBgRaw !== \"transparent\" ? normColor(pseudoBgRaw) : \"\";\n      const pseudoBR = parseFloat(pcs.borderRadius) || 0;\n      const bwTop = parseFloat(pcs.borderTopWidth) || 0;\n      const bwRight = parseFloat(pcs.borderRightWidth) || 0;\n      const bwBottom = parseFloat(pcs.borderBottomWidth) || 0;\n      const bwLeft = parseFloat(pcs.borderLeftWidth) || 0;\n      const bwUniform = bwTop > 0 && bwRight === bwTop && bwBottom === bwTop && bwLeft === bwTop;\n      const pseudoBC = bwUniform ? normColor(pcs.borderTopColor) : \"\";\n      const colorIsPaintable = (raw) => raw !== \"\" && raw !== \"rgba(0, 0, 0, 0)\" && raw !== \"transparent\";\n      const sideBorderTopColor = bwTop > 0 ? normColor(pcs.borderTopColor) : \"\";\n      const sideBorderRightColor = bwRight > 0 ? normColor(pcs.borderRightColor) : \"\";\n      const sideBorderBottomColor = bwBottom > 0 ? normColor(pcs.borderBottomColor) : \"\";\n      const sideBorderLeftColor = bwLeft > 0 ? normColor(pcs.borderLeftColor) : \"\";\n      const hasPerSideBorder = !bwUniform && (bwTop > 0 && colorIsPaintable(sideBorderTopColor) || bwRight > 0 && colorIsPaintable(sideBorderRightColor) || bwBottom > 0 && colorIsPaintable(sideBorderBottomColor) || bwLeft > 0 && colorIsPaintable(sideBorderLeftColor));\n      const pseudoBgImgRaw = pcs.backgroundImage;\n      const hasPseudoBgImg = hasCssValue(pseudoBgImgRaw);\n      const pseudoComposedRaw = composeEffectiveTransform2 != null ? composeEffectiveTransform2(pcs) : pcs.transform || \"none\";\n      const pseudoComposed = physicalTransform(el, pseudoComposedRaw);\n      const pseudoTransform = pseudoComposed && pseudoComposed !== \"none\" ? pseudoComposed : void 0;\n      const pseudoTransformOrigin = pseudoTransform != null ? physicalComputedCssPixelTerms(pcs.transformOrigin || \"\", effectiveZoomFor(el)) || void 0 : void 0;\n      const pseudoFilter = physicalFilter(el, pcs.filter);\n      const pseudoOpacityValue = parseFloat(pcs.opacity);\n      const pseudoOpacity = Number.isFinite(pseudoOpacityValue) && pseudoOpacityValue < 1 ? pseudoOpacityValue : void 0;\n      let pseudoBoxStyles = null;\n      if (pseudoBgColor !== \"\" || hasPseudoBgImg || pseudoBR > 0 || bwUniform && pseudoBC !== \"\" && pseudoBC !== \"rgba(0, 0, 0, 0)\" || hasPerSideBorder || pseudoTransform != null || pseudoFilter != null || pseudoOpacity != null) {\n        pseudoBoxStyles = {\n          padL: parseFloat(pcs.paddingLeft) || 0,\n          padR: parseFloat(pcs.paddingRight) || 0,\n          padT: parseFloat(pcs.paddingTop) || 0,\n          padB: parseFloat(pcs.paddingBottom) || 0,\n          borL: bwLeft,\n          borR: bwRight,\n          borT: bwTop,\n          borB: bwBottom,\n          // Inline-box bg paints at line-height, not at font-size — so\n          // the box's vertical extent is lineH + padding + border (not\n          // fontSize). Capture lineH alongside the metrics; the post-\n          // injection block uses it to compute boxH and boxY (centered\n          // on the line box).\n          lineH,\n          fontSize: elFontSize,\n          measuredWidth: pseudoLayout.borderRect.width,\n          measuredHeight: pseudoLayout.borderRect.height,\n          backgroundColor: pseudoBgColor !== \"\" ? pseudoBgColor : void 0,\n          backgroundImage: hasPseudoBgImg ? pseudoBgImgRaw : void 0,\n          borderRadius: pseudoBR > 0 ? pseudoBR : void 0,\n          borderWidth: bwUniform ? bwTop : void 0,\n          borderColor: bwUniform && pseudoBC !== \"\" && pseudoBC !== \"rgba(0, 0, 0, 0)\" ? pseudoBC : void 0,\n          transform: pseudoTransform,\n          transformOrigin: pseudoTransformOrigin,\n          filter: pseudoFilter,\n          opacity: pseudoOpacity,\n          // Per-side colors. Renderer reads these when no uniform border\n          // is set and emits a `<line>` for each side whose width > 0 and\n          // color is paintable. Undefined when the side has no visible\n          // border, keeping the captured tree compact in the common case.\n          borderTopColor: hasPerSideBorder && bwTop > 0 && colorIsPaintable(sideBorderTopColor) ? sideBorderTopColor : void 0,\n          borderRightColor: hasPerSideBorder && bwRight > 0 && colorIsPaintable(sideBorderRightColor) ? sideBorderRightColor : void 0,\n          borderBottomColor: hasPerSideBorder && bwBottom > 0 && colorIsPaintable(sideBorderBottomColor) ? sideBorderBottomColor : void 0,\n          borderLeftColor: hasPerSideBorder && bwLeft > 0 && colorIsPaintable(sideBorderLeftColor) ? sideBorderLeftColor : void 0\n        };\n      }\n      let allPua = text.length > 0;\n      for (let _ci = 0; _ci < text.length; ) {\n        const cp = text.codePointAt(_ci);\n        const inPua = cp >= 57344 && cp <= 63743 || cp >= 983040 && cp <= 1048573 || cp >= 1048576 && cp <= 1114109;\n        if (!inPua) {\n          allPua = false;\n          break;\n        }\n        _ci += cp > 65535 ? 2 : 1;\n      }\n      if (textNeedsRaster(text) || allPua) {\n        if (allPua && !textNeedsRaster(text)) {\n          pseudoSeg.rasterRect = {\n            x: rect.left - vp.x,\n            y: rect.top - vp.y,\n            width: rect.width,\n            height: rect.height\n          };\n        } else {\n          pseudoSeg.rasterRect = {\n            x: pseudoSeg.x,\n            y: elTop,\n            width: pseudoWidth,\n            height: lineH\n          };\n          const emojiInner = text.replace(/^[\"']|[\"']$/g, \"\").replace(/^\\s+|\\s+$/g, \"\");\n          if (emojiInner.length > 0) {\n            const emojiSide = Math.min(measureGlyphAdvance(emojiInner, pcs), elFontSize * 1.4);\n            if (emojiSide > lineH) pseudoSeg.rasterEmojiSide = emojiSide;\n          }\n        }\n      }\n      pseudoSegments.push({\n        isBefore: pseudo === \"::before\",\n        seg: pseudoSeg,\n        color: pcs.color,\n        isPositioned: pseudoIsPositioned,\n        boxStyles: pseudoBoxStyles\n      });\n    }\n    return { pseudoSegments, pseudoBoxes };\n  };\n  return { capturePseudoContent };\n};\nvar createPseudoContentHandler = (dependencies) => buildPseudoContentHandler(dependencies);\n\n// src/capture/script/walker/input-value.ts\nvar SKIP_VALUE_TYPES = /* @__PURE__ */ new Set([\n  \"range\",\n  \"color\",\n  \"checkbox\",\n  \"radio\",\n  \"file\",\n  \"image\",\n  \"hidden\",\n  \"date\",\n  \"time\",\n  \"datetime-local\",\n  \"month\",\n  \"week\"\n]);\nvar NOT_APPLIED = { applied: false };\nvar createInputValueHandler = ({ vp, normColor, measureFontMetrics }) => {\n  const captureInputValue = (el, cs, tag, rect) => {\n    if (tag !== \"input\" && tag !== \"textarea\") return NOT_APPLIED;\n    const inputType = tag === \"input\" ? el.type || \"text\" : \"\";\n    if (SKIP_VALUE_TYPES.has(inputType)) return NOT_APPLIED;\n    let isPlaceholderCapture = false;\n    let text = \"\";\n    if (!el.value) {\n      const placeholder = el.getAttribute && el.getAttribute(\"placeholder\");\n      if (placeholder != null && placeholder !== \"\") {\n        isPlaceholderCapture = true;\n        text = placeholder;\n      } else {\n        return NOT_APPLIED;\n      }\n    } else {\n      text = inputType === \"password\" ? \"\\u2022\".repeat(el.value.length) : el.value;\n    }\n    const pl = parseFloat(cs.paddingLeft) || 0;\n    const pt = parseFloat(cs.paddingTop) || 0;\n    const pr = parseFloat(cs.paddingRight) || 0;\n    const pb = parseFloat(cs.paddingBottom) || 0;\n    const { left: bl, top: bt, right: br, bottom: bb } = sideWidths(cs, \"border\", \"Width\");\n    let textLeft = rect.left - vp.x + bl + pl;\n    let textTop = rect.top - vp.y + bt + pt;\n    const textHeight = parseFloat(cs.lineHeight) || parseFloat(cs.fontSize) * 1.2;\n    const textWidth = rect.width - bl * 2 - pl * 2;\n    const display = cs.display;\n    const isFlexLike = display === \"flex\" || display === \"inline-flex\" || display === \"grid\" || display === \"inline-grid\";\n    const isSingleLineInput = tag === \"input\";\n    if (isSingleLineInput || isFlexLike && cs.alignItems === \"center\") {\n      const contentH = rect.height - bt - bb - pt - pb;\n      if (contentH > textHeight + 0.5) {\n        textTop = rect.top - vp.y + bt + pt + (contentH - textHeight) / 2;\n      }\n    }\n    const metrics = measureFontMetrics(cs);\n    const fontAscent = metrics.ascent;\n    const fontDescent = metrics.descent;\n    const fontH = fontAscent + fontDescent;\n    const textTopLineBox = textTop;\n    if (cs.lineHeight !== \"normal\" && textHeight > fontH + 0.5) {\n      textTop += (textHeight - fontH) / 2;\n    } else if (fontH > textHeight + 0.5) {\n      textTop -= (fontH - textHeight) / 2;\n    }\n    let textSegments;\n    let inputXOffsets;\n    if (text.length > 0 && tag === \"input\") {\n      const probe = document.createElement(\"span\");\n      probe.style.position = \"absolute\";\n      probe.style.left = \"-9999px\";\n      probe.style.top = \"-9999px\";\n      probe.style.visibility = \"hidden\";\n      probe.style.whiteSpace = \"pre\";\n      probe.style.fontFamily = cs.fontFamily;\n      probe.style.fontSize = cs.fontSize;\n      probe.style.fontWeight = cs.fontWeight;\n      probe.style.fontStyle = cs.fontStyle;\n      probe.style.letterSpacing = cs.letterSpacing;\n      probe.style.fontKerning = cs.fontKerning;\n      probe.style.fontVariationSettings = cs.fontVariationSettings;\n      probe.style.fontOpticalSizing = cs.fontOpticalSizing;\n      probe.style.fontFeatureSettings = cs.fontFeatureSettings;\n      probe.textContent = text;\n      document.body.appendChild(probe);\n      const probeNode = probe.firstChild;\n      if (probeNode != null) {\n        const probeBox = probe.getBoundingClientRect();\n        const probeOriginX = probeBox.left;\n        const xs = [];\n        let i = 0;\n        while (i < text.length) {\n          const code = text.charCodeAt(i);\n          const isHigh = code >= 55296 && code <= 56319 && i + 1 < text.length;\n          const step = isHigh ? 2 : 1;\n          const rng = document.createRange();\n          rng.setStart(probeNode, i);\n          rng.setEnd(probeNode, i + step);\n          const cr = rng.getBoundingClientRect();\n          const left = cr.left - probeOriginX + textLeft;\n          for (let k = 0; k < step; k++) xs.push(left);\n          i += step;\n        }\n        const contentBoxW = rect.width - bl - br - pl - pr;\n        const probeW = probeBox.width;\n        const slack = contentBoxW - probeW;\n        const align = cs.textAlign;\n        const dir = cs.direction;\n        let shift = 0;\n        if (slack > 0) {\n          if (align === \"center\") shift = slack / 2;\n          else if (align === \"right\" || align === \"end\" && dir !== \"rtl\" || align === \"start\" && dir === \"rtl\") shift = slack;\n        }\n        if (shift !== 0) {\n          textLeft += shift;\n          for (let k = 0; k < xs.length; k++) xs[k] += shift;\n        }\n        inputXOffsets = xs;\n      }\n      document.body.removeChild(probe);\n    }\n    if (text.length > 0 && tag === \"textarea\") {\n      const contentBoxW = rect.width - bl - br - pl - pr;\n      const contentBoxH = rect.height - bt - bb - pt - pb;\n      const probe = document.createElement(\"div\");\n      probe.style.position = \"absolute\";\n      probe.style.left = \"0\";\n      probe.style.top = \"-100000px\";\n      probe.style.visibility = \"hidden\";\n      probe.style.boxSizing = \"content-box\";\n      probe.style.width = contentBoxW + \"px\";\n      probe.style.padding = \"0\";\n      probe.style.margin = \"0\";\n      probe.style.border = \"0\";\n      probe.style.fontFamily = cs.fontFamily;\n      probe.style.fontSize = cs.fontSize;\n      probe.style.fontWeight = cs.fontWeight;\n      probe.style.fontStyle = cs.fontStyle;\n      probe.style.fontVariationSettings = cs.fontVariationSettings;\n      probe.style.fontOpticalSizing = cs.fontOpticalSizing;\n      probe.style.fontFeatureSettings = cs.fontFeatureSettings;\n      probe.style.fontKerning = cs.fontKerning;\n      probe.style.letterSpacing = cs.letterSpacing;\n      probe.style.wordSpacing = cs.wordSpacing;\n      probe.style.lineHeight = cs.lineHeight;\n      probe.style.tabSize = cs.tabSize;\n      probe.style.textAlign = cs.textAlign;\n      probe.style.direction = cs.direction;\n      probe.style.whiteSpace = \"pre-wrap\";\n      probe.style.wordWrap = cs.wordWrap || \"normal\";\n      probe.style.overflowWrap = cs.overflowWrap || \"normal\";\n      probe.style.wordBreak = cs.wordBreak || \"normal\";\n      probe.style.hyphens = cs.hyphens || \"manual\";\n      probe.textContent = text;\n      document.body.appendChild(probe);\n      const probeNode = probe.firstChild;\n      if (probeNode != null) {\n        const probeBox = probe.getBoundingClientRect();\n        const probeOriginX = probeBox.left;\n        const probeOriginY = probeBox.top;\n        const lines = [];\n        let cur = null;\n        for (let i = 0; i < text.length; i++) {\n          const ch = text[i];\n          if (ch === \"\\n\") {\n            if (cur != null) {\n              lines.push(cur);\n              cur = null;\n            }\n            continue;\n          }\n          const code = text.charCodeAt(i);\n          const isHigh = code >= 55296 && code <= 56319 && i + 1 < text.length;\n          const step = isHigh ? 2 : 1;\n          const rng = document.createRange();\n          rng.setStart(probeNode, i);\n          rng.setEnd(probeNode, i + step);\n          const cr = rng.getBoundingClientRect();\n          if (cr.width === 0 && cr.height === 0) {\n            i += step - 1;\n            continue;\n          }\n          const charLeft = cr.left - probeOriginX;\n          const charTop = cr.top - probeOriginY;\n          const charRight = cr.right - probeOriginX;\n          const charBottom = cr.bottom - probeOriginY;\n          if (cur == null || charTop - cur.top > Math.max(1, (cur.bottom - cur.top) * 0.5)) {\n            if (cur != null) lines.push(cur);\n            cur = { text: \"\", xOffsets: [], top: charTop, bottom: charBottom, left: charLeft, right: charRight };\n          }\n          for (let k = 0; k < step; k++) {\n            cur.text += text[i + k];\n            cur.xOffsets.push(textLeft + charLeft);\n          }\n          if (charRight > cur.right) cur.right = charRight;\n          if (charBottom > cur.bottom) cur.bottom = charBottom;\n          i += step - 1;\n        }\n        if (cur != null) lines.push(cur);\n        textSegments = lines.map((ln) => ({\n          text: ln.text,\n          x: textLeft + ln.left,\n          // Snap to a whole pixel: Chrome positions glyphs with SUBPIXEL\n          // precision horizontally only — vertically the text origin is rounded\n          // to an integer device pixel before rasterization. Measured directly:\n          // a box at top 40 / 140.25 / 240.5 / 340.75 paints its first ink row\n          // at 45 / 145 / 246 / 346 — always round(top) + a constant, and always\n          // an integer row (identical for a <textarea> and a plain <div>, so this\n          // is glyph rasterization, not a scroll-container effect). A textarea\n          // whose border box lands on a fractional y (here .4375, from ordinary\n          // page flow) therefore had every line rendered up to a pixel off.\n          // The renderer already rounds the ascent it adds to reach the baseline\n          // (`text-to-path.ts`), so rounding the line top rounds the baseline.\n          y: Math.round(textTopLineBox + ln.top),\n          width: ln.right - ln.left,\n          height: ln.bottom - ln.top,\n          xOffsets: ln.xOffsets\n        }));\n      }\n      document.body.removeChild(probe);\n      void contentBoxH;\n    }\n    let placeholderColor;\n    let placeholderFontStyle;\n    let placeholderFontWeight;\n    if (isPlaceholderCapture) {\n      const phCs = window.getComputedStyle(el, \"::placeholder\");\n      placeholderColor = normColor(phCs.color || cs.color);\n      placeholderFontStyle = phCs.fontStyle;\n      placeholderFontWeight = phCs.fontWeight;\n    }\n    return {\n      applied: true,\n      text,\n      textLeft,\n      textTop,\n      textHeight,\n      textWidth,\n      fontAscent,\n      fontDescent,\n      inputXOffsets,\n      textSegments,\n      isPlaceholderCapture,\n      placeholderColor,\n      placeholderFontStyle,\n      placeholderFontWeight\n    };\n  };\n  return { captureInputValue };\n};\n\n// src/capture/script/vertical-orientation.generated.ts\nvar MIXED_VERTICAL_UPRIGHT_RANGES = [\n  [167, 167],\n  [169, 169],\n  [174, 174],\n  [177, 177],\n  [188, 190],\n  [215, 215],\n  [247, 247],\n  [746, 747],\n  [4352, 4607],\n  [5121, 5759],\n  [6320, 6399],\n  [8214, 8214],\n  [8216, 8217],\n  [8220, 8221],\n  [8224, 8225],\n  [8240, 8241],\n  [8251, 8252],\n  [8258, 8258],\n  [8263, 8265],\n  [8273, 8273],\n  [8293, 8293],\n  [8413, 8416],\n  [8418, 8420],\n  [8448, 8449],\n  [8451, 8457],\n  [8463, 8463],\n  [8467, 8468],\n  [8470, 8471],\n  [8478, 8483],\n  [8485, 8485],\n  [8487, 8487],\n  [8489, 8489],\n  [8494, 8494],\n  [8501, 8511],\n  [8517, 8522],\n  [8524, 8525],\n  [8527, 8585],\n  [8588, 8591],\n  [8734, 8734],\n  [8756, 8757],\n  [8960, 8967],\n  [8972, 8991],\n  [8996, 9003],\n  [9085, 9114],\n  [9150, 9165],\n  [9167, 9167],\n  [9169, 9179],\n  [9186, 9250],\n  [9252, 9471],\n  [9632, 9753],\n  [9760, 10087],\n  [10102, 10131],\n  [11026, 11055],\n  [11088, 11097],\n  [11159, 11159],\n  [11192, 11217],\n  [11219, 11243],\n  [11248, 11263],\n  [11856, 11857],\n  [11904, 42191],\n  [43360, 43391],\n  [44032, 55295],\n  [57344, 64255],\n  [65040, 65055],\n  [65072, 65096],\n  [65104, 65111],\n  [65113, 65122],\n  [65127, 65135],\n  [65281, 65292],\n  [65294, 65307],\n  [65311, 65376],\n  [65504, 65511],\n  [65520, 65528],\n  [65532, 65533],\n  [67968, 67999],\n  [71040, 71167],\n  [72192, 72383],\n  [77824, 83583],\n  [94176, 101887],\n  [110576, 111359],\n  [118464, 118735],\n  [118784, 119295],\n  [119520, 119679],\n  [120832, 121519],\n  [126976, 129023],\n  [129280, 129791],\n  [131072, 196605],\n  [196608, 262141],\n  [983040, 1048573],\n  [1048576, 1114109]\n];\n\n// src/capture/script/walker/text-segments.ts\nvar computeElementRaster = (el, cs, tag, rect, vp) => {\n  void el;\n  void cs;\n  void tag;\n  void rect;\n  void vp;\n  return void 0;\n};\nvar mathItalicChar = (ch) => {\n  const code = ch.codePointAt(0);\n  if (code == null) return ch;\n  if (code >= 65 && code <= 90) return String.fromCodePoint(119860 + (code - 65));\n  if (code >= 97 && code <= 122) {\n    if (code === 104) return \"\\u210E\";\n    return String.fromCodePoint(119886 + (code - 97));\n  }\n  if (code >= 913 && code <= 937) return String.fromCodePoint(120546 + (code - 913));\n  if (code >= 945 && code <= 969) return String.fromCodePoint(120572 + (code - 945));\n  switch (code) {\n    case 8706:\n      return String.fromCodePoint(120597);\n    // ∂ → italic partial differential\n    case 1013:\n      return String.fromCodePoint(120598);\n    // ϵ (lunate) → italic epsilon symbol\n    case 977:\n      return String.fromCodePoint(120599);\n    // ϑ (theta sym) → italic theta symbol\n    case 1008:\n      return String.fromCodePoint(120600);\n    // ϰ (kappa sym) → italic kappa symbol\n    case 981:\n      return String.fromCodePoint(120601);\n    // ϕ (phi sym) → italic phi symbol\n    case 1009:\n      return String.fromCodePoint(120602);\n    // ϱ (rho sym) → italic rho symbol\n    case 982:\n      return String.fromCodePoint(120603);\n    // ϖ (pi sym) → italic pi symbol\n    case 8711:\n      return String.fromCodePoint(120571);\n    // ∇ (nabla) → italic nabla (upper-block tail)\n    default:\n      return ch;\n  }\n};\nvar _RE_LETTER = /\\p{L}/u;\nvar _RE_WORD_CHAR = /[\\p{L}\\p{M}\\p{N}]/u;\nvar _MIDWORD_CONNECTORS = \"'\\u2019\\xB7\\u0387\\u05F4\";\nvar TITLECASE_DIGRAPHS = {\n  \"\\u01C4\": \"\\u01C5\",\n  \"\\u01C6\": \"\\u01C5\",\n  \"\\u01C7\": \"\\u01C8\",\n  \"\\u01C9\": \"\\u01C8\",\n  \"\\u01CA\": \"\\u01CB\",\n  \"\\u01CC\": \"\\u01CB\",\n  \"\\u01F1\": \"\\u01F2\",\n  \"\\u01F3\": \"\\u01F2\"\n};\nvar capitalizeCss = (s) => {\n  let atWordStart = true;\n  let out = \"\";\n  for (const ch of s) {\n    if (atWordStart && _RE_LETTER.test(ch)) {\n      out += TITLECASE_DIGRAPHS[ch] || ch.toUpperCase();\n    } else {\n      out += ch;\n    }\n    atWordStart = !_RE_WORD_CHAR.test(ch) && _MIDWORD_CONNECTORS.indexOf(ch) < 0;\n  }\n  return out;\n};\nvar transformTextWithSourceSpans = (source, transform, lang) => {\n  const out = [];\n  let atWordStart = true;\n  for (let i = 0; i < source.length; ) {\n    const cp = source.codePointAt(i);\n    const sourceText = String.fromCodePoint(cp);\n    let rendered = sourceText;\n    if (transform === \"uppercase\") rendered = lang ? sourceText.toLocaleUpperCase(lang) : sourceText.toUpperCase();\n    else if (transform === \"lowercase\") rendered = lang ? sourceText.toLocaleLowerCase(lang) : sourceText.toLowerCase();\n    else if (transform === \"capitalize\" && atWordStart && _RE_LETTER.test(sourceText)) {\n      rendered = TITLECASE_DIGRAPHS[sourceText] || (lang ? sourceText.toLocaleUpperCase(lang) : sourceText.toUpperCase());\n    }\n    out.push({ sourceStart: i, sourceEnd: i + sourceText.length, sourceText, rendered });\n    atWordStart = !_RE_WORD_CHAR.test(sourceText) && _MIDWORD_CONNECTORS.indexOf(sourceText) < 0;\n    i += sourceText.length;\n  }\n  const joined = out.map((part) => part.rendered).join(\"\");\n  const whole = transform === \"uppercase\" ? lang ? source.toLocaleUpperCase(lang) : source.toUpperCase() : transform === \"lowercase\" ? lang ? source.toLocaleLowerCase(lang) : source.toLowerCase() : transform === \"capitalize\" ? capitalizeCss(source) : source;\n  if (whole.length === joined.length && whole !== joined) {\n    let offset = 0;\n    for (const part of out) {\n      part.rendered = whole.slice(offset, offset + part.rendered.length);\n      offset += part.rendered.length;\n    }\n  }\n  return out;\n};\nvar isShapingTransparentControl = (ch) => ch === \"\\u200C\" || ch === \"\\u200D\";\nvar isMixedVerticalUpright = (cp) => {\n  if (cp == null) return false;\n  let lo = 0;\n  let hi = MIXED_VERTICAL_UPRIGHT_RANGES.length - 1;\n  while (lo <= hi) {\n    const mid = lo + hi >>> 1;\n    const range = MIXED_VERTICAL_UPRIGHT_RANGES[mid];\n    if (cp < range[0]) hi = mid - 1;\n    else if (cp > range[1]) lo = mid + 1;\n    else return true;\n  }\n  return false;\n};\nvar resolveCharOrientation = (ch, textOrientation) => {\n  if (textOrientation === \"upright\") return \"upright\";\n  if (textOrientation === \"sideways\") return \"rotated\";\n  return isMixedVerticalUpright(ch.codePointAt(0)) ? \"upright\" : \"rotated\";\n};\nvar buildTextSegmentsHandler = ({ vp, measureFontMetrics, rasterCandidates, normColor, markGetsDottedCircle, finalizeLineClampText }) => {\n  const finishLineClamp = (el, cs, result) => finalizeLineClampText == null ? result : finalizeLineClampText(el, cs, result);\n  const captureVerticalTextSegments = (el, cs) => {\n    const wm = cs.writingMode;\n    const textOrientation = cs.textOrientation || \"mixed\";\n    const isSideways = wm === \"sideways-rl\" || wm === \"sideways-lr\";\n    const effectiveTextOrientation = isSideways ? \"sideways\" : textOrientation;\n    const textSegments = [];\n    let text = \"\";\n    let minLeft = Infinity;\n    let minTop = Infinity;\n    let maxRight = -Infinity;\n    let maxBottom = -Infinity;\n    const _vertCanvas = document.createElement(\"canvas\");\n    const _vertCtx = _vertCanvas.getContext(\"2d\");\n    _vertCtx.font = `${cs.fontStyle || \"normal\"} ${cs.fontWeight || \"400\"} ${cs.fontSize} ${cs.fontFamily}`;\n    const measureNaturalWidth = (ch) => _vertCtx.measureText(ch).width;\n    const allChars = [];\n    for (const node of el.childNodes) {\n      if (node.nodeType !== Node.TEXT_NODE) continue;\n      const sourceRaw = node.textContent || \"\";\n      const tt = cs.textTransform;\n      const mapped = transformTextWithSourceSpans(sourceRaw, tt, cs.lang || el.lang || \"\");\n      const raw = mapped.map((part) => part.rendered).join(\"\");\n      if (!raw.trim()) continue;\n      text += raw.trim() + \" \";\n      for (const part of mapped) {\n        const r = document.createRange();\n        r.setStart(node, part.sourceStart);\n        r.setEnd(node, part.sourceEnd);\n        const cr = r.getBoundingClientRect();\n        const ch = part.rendered;\n        const isWs = /^\\s+$/.test(part.sourceText);\n        if (cr.height === 0 && (cr.width === 0 || isWs)) continue;\n        allChars.push({ ch, x: cr.left, y: cr.top, w: cr.width, h: cr.height, naturalW: measureNaturalWidth(ch) });\n      }\n    }\n    if (allChars.length === 0) {\n      return { applied: true, text: text.trim(), textSegments };\n    }\n    const tcu = cs.textCombineUpright || cs.webkitTextCombine || \"\";\n    const isCombineAll = tcu === \"all\";\n    if (isCombineAll) {\n      const metricsC = measureFontMetrics(cs);\n      let cellTop = Infinity, cellBot = -Infinity, minX = Infinity, maxX = -Infinity;\n      for (const c of allChars) {\n        cellTop = Math.min(cellTop, c.y);\n        cellBot = Math.max(cellBot, c.y + c.h);\n        minX = Math.min(minX, c.x);\n        maxX = Math.max(maxX, c.x + c.w);\n      }\n      const combinedText = allChars.map((c) => c.ch).join(\"\").replace(/[\\t\\n\\r]/g, \" \");\n      const xOffsets = allChars.map((c) => c.x - minX);\n      textSegments.push({\n        text: combinedText,\n        x: minX - vp.x,\n        y: cellTop - vp.y,\n        width: maxX - minX,\n        height: cellBot - cellTop,\n        verticalWritingMode: wm,\n        verticalCombineUpright: true,\n        verticalCombineXOffsets: xOffsets,\n        fontAscent: metricsC.ascent\n      });\n      return {\n        applied: true,\n        text: combinedText,\n        textSegments,\n        textLeft: minX - vp.x,\n        textTop: cellTop - vp.y,\n        textWidth: maxX - minX,\n        textHeight: cellBot - cellTop,\n        fontAscent: metricsC.ascent,\n        fontDescent: metricsC.descent\n      };\n    }\n    const columns = [];\n    let curCol = null;\n    for (const c of allChars) {\n      if (curCol == null || Math.abs(c.x - curCol.x) > 1) {\n        if (curCol != null) columns.push(curCol);\n        curCol = { x: c.x, width: c.w, chars: [c] };\n      } else {\n        curCol.chars.push(c);\n      }\n    }\n    if (curCol != null) columns.push(curCol);\n    const metrics = measureFontMetrics(cs);\n    for (const col of columns) {\n      const colTop = col.chars[0].y;\n      const colBot = col.chars[col.chars.length - 1].y + col.chars[col.chars.length - 1].h;\n      const visualText = col.chars.map((c) => c.ch).join(\"\").replace(/[\\t\\n\\r]/g, \" \");\n      if (visualText.replace(/\\s/g, \"\") === \"\") continue;\n      const yOffsets = [];\n      const verticalOrientations = [];\n      const verticalAdvances = [];\n      const verticalNaturalWidths = [];\n      for (const c of col.chars) {\n        for (let k = 0; k < c.ch.length; k++) {\n          yOffsets.push(c.y - vp.y);\n          verticalOrientations.push(resolveCharOrientation(c.ch, effectiveTextOrientation));\n          verticalAdvances.push(c.h);\n          verticalNaturalWidths.push(c.naturalW);\n        }\n      }\n      textSegments.push({\n        text: visualText,\n        x: col.x - vp.x,\n        y: colTop - vp.y,\n        width: col.width,\n        height: colBot - colTop,\n        verticalWritingMode: wm,\n        verticalOrientations,\n        yOffsets,\n        verticalAdvances,\n        verticalNaturalWidths,\n        fontAscent: metrics.ascent\n      });\n      minLeft = Math.min(minLeft, col.x);\n      minTop = Math.min(minTop, colTop);\n      maxRight = Math.max(maxRight, col.x + col.width);\n      maxBottom = Math.max(maxBottom, colBot);\n    }\n    return {\n      applied: true,\n      text: text.trim(),\n      textSegments,\n      textLeft: minLeft - vp.x,\n      textTop: minTop - vp.y,\n      textWidth: maxRight - minLeft,\n      textHeight: maxBottom - minTop,\n      fontAscent: metrics.ascent,\n      fontDescent: metrics.descent\n    };\n  };\n  const buildFirstLetterSegment = (firstLetterChars, flStyle, hasInitialLetter, el, cs) => {\n    const styledText = firstLetterChars.map((c) => c.ch).join(\"\");\n    const minL = Math.min(...firstLetterChars.map((c) => c.left));\n    const maxR = Math.max(...firstLetterChars.map((c) => c.right));\n    const minT = Math.min(...firstLetterChars.map((c) => c.top));\n    const maxB = Math.max(...firstLetterChars.map((c) => c.bottom));\n    const xoff = [];\n    for (const c of firstLetterChars) {\n      for (let k = 0; k < c.ch.length; k++) xoff.push(c.left - vp.x);\n    }\n    const flMetrics = measureFontMetrics(flStyle);\n    let effectiveFs = parseFloat(flStyle.fontSize) || void 0;\n    let effectiveAscent = flMetrics.ascent;\n    let styledSegY = minT - vp.y;\n    const flFloatSize = flStyle.float || flStyle.cssFloat || \"\";\n    const flIsFloatSize = flFloatSize === \"left\" || flFloatSize === \"right\";\n    if (hasInitialLetter) {\n      const probeCanvas = document.createElement(\"canvas\");\n      const probeCtx = probeCanvas.getContext(\"2d\");\n      probeCtx.font = `${flStyle.fontStyle || \"normal\"} ${flStyle.fontWeight || \"400\"} 100px ${flStyle.fontFamily || \"serif\"}`;\n      const probeM = probeCtx.measureText(styledText);\n      const naturalWidthAt100 = probeM.width;\n      const ascentRatio = probeM.fontBoundingBoxAscent / 100;\n      const hM = probeCtx.measureText(\"H\");\n      const capHeightRatio = hM.actualBoundingBoxAscent / 100;\n      const pseudoComputedW = parseFloat(flStyle.width);\n      if (Number.isFinite(pseudoComputedW) && pseudoComputedW > 0 && naturalWidthAt100 > 0) {\n        const paintedGlyphW = pseudoComputedW;\n        effectiveFs = 100 * paintedGlyphW / naturalWidthAt100;\n        const flFloatForSize = flStyle.float || flStyle.cssFloat || \"\";\n        const pseudoComputedH = parseFloat(flStyle.height);\n        const glyphInkH100 = (probeM.actualBoundingBoxAscent || 0) + (probeM.actualBoundingBoxDescent || 0);\n        const glyphInkW100 = (probeM.actualBoundingBoxLeft || 0) + (probeM.actualBoundingBoxRight || 0);\n        if ((flFloatForSize === \"left\" || flFloatForSize === \"right\") && Number.isFinite(pseudoComputedH) && pseudoComputedH > 0 && glyphInkH100 > 0) {\n          effectiveFs = 100 * pseudoComputedH / glyphInkH100;\n        } else if (!flIsFloatSize && glyphInkW100 > 0) {\n          effectiveFs = 100 * pseudoComputedW / glyphInkW100;\n        }\n        effectiveAscent = effectiveFs * ascentRatio;\n      }\n    }\n    const flFloat = flStyle.float || flStyle.cssFloat || \"\";\n    const padT = parseFloat(flStyle.paddingTop) || 0;\n    const padR = parseFloat(flStyle.paddingRight) || 0;\n    const padB = parseFloat(flStyle.paddingBottom) || 0;\n    const padL = parseFloat(flStyle.paddingLeft) || 0;\n    let pboxL, pboxT, pboxW, pboxH;\n    if (flFloat === \"left\" || flFloat === \"right\") {\n      const pBox = el.getBoundingClientRect();\n      const pPadT = parseFloat(cs.paddingTop) || 0;\n      const pPadL = parseFloat(cs.paddingLeft) || 0;\n      const pPadR = parseFloat(cs.paddingRight) || 0;\n      const pBorT = parseFloat(cs.borderTopWidth) || 0;\n      const pBorL = parseFloat(cs.borderLeftWidth) || 0;\n      const pBorR = parseFloat(cs.borderRightWidth) || 0;\n      const flMarT = parseFloat(flStyle.marginTop) || 0;\n      const flMarL = parseFloat(flStyle.marginLeft) || 0;\n      const flMarR = parseFloat(flStyle.marginRight) || 0;\n      const cw = parseFloat(flStyle.width);\n      const ch_ = parseFloat(flStyle.height);\n      pboxW = (Number.isFinite(cw) && cw > 0 ? cw : maxR - minL) + padL + padR;\n      pboxH = (Number.isFinite(ch_) && ch_ > 0 ? ch_ : maxB - minT) + padT + padB;\n      pboxT = pBox.y + pBorT + pPadT + flMarT - vp.y;\n      pboxL = flFloat === \"left\" ? pBox.x + pBorL + pPadL + flMarL - vp.x : pBox.x + pBox.width - pBorR - pPadR - flMarR - pboxW - vp.x;\n    } else {\n      pboxL = minL - vp.x - padL;\n      pboxT = minT - vp.y - padT;\n      pboxW = maxR - minL + padL + padR;\n      pboxH = maxB - minT + padT + padB;\n    }\n    let flGlyphX = minL - vp.x;\n    const flIsFloat = flFloat === \"left\" || flFloat === \"right\";\n    if (hasInitialLetter && effectiveFs != null && flIsFloat) {\n      const contentBottom = pboxT + pboxH - padB;\n      styledSegY = contentBottom - effectiveAscent;\n      const contentLeft = pboxL + padL;\n      const contentW = pboxW - padL - padR;\n      const glyphW = maxR - minL;\n      flGlyphX = contentLeft + (contentW - glyphW) / 2;\n    }\n    const bwT = parseFloat(flStyle.borderTopWidth) || 0;\n    const bwR_ = parseFloat(flStyle.borderRightWidth) || 0;\n    const bwB = parseFloat(flStyle.borderBottomWidth) || 0;\n    const bwL = parseFloat(flStyle.borderLeftWidth) || 0;\n    const uniformBw = bwT > 0 && bwT === bwR_ && bwT === bwB && bwT === bwL;\n    const bgRaw = flStyle.backgroundColor;\n    const hasBg = bgRaw && bgRaw !== \"\" && bgRaw !== \"rgba(0, 0, 0, 0)\" && bgRaw !== \"transparent\";\n    const bgImgRaw = flStyle.backgroundImage;\n    const hasBgImg = bgImgRaw && bgImgRaw !== \"\" && bgImgRaw !== \"none\";\n    const brad = parseFloat(flStyle.borderRadius) || 0;\n    const hasAnyBox = hasBg || hasBgImg || brad > 0 || bwT > 0 || bwR_ > 0 || bwB > 0 || bwL > 0;\n    const pseudoBox = hasAnyBox ? {\n      x: pboxL,\n      y: pboxT,\n      width: pboxW,\n      height: pboxH,\n      backgroundColor: hasBg ? normColor(bgRaw) : void 0,\n      backgroundImage: hasBgImg ? bgImgRaw : void 0,\n      borderRadius: brad > 0 ? brad : void 0,\n      borderWidth: uniformBw ? bwT : void 0,\n      borderColor: uniformBw ? normColor(flStyle.borderTopColor) : void 0,\n      borL: bwL,\n      borR: bwR_,\n      borT: bwT,\n      borB: bwB,\n      borderTopColor: !uniformBw && bwT > 0 ? normColor(flStyle.borderTopColor) : void 0,\n      borderRightColor: !uniformBw && bwR_ > 0 ? normColor(flStyle.borderRightColor) : void 0,\n      borderBottomColor: !uniformBw && bwB > 0 ? normColor(flStyle.borderBottomColor) : void 0,\n      borderLeftColor: !uniformBw && bwL > 0 ? normColor(flStyle.borderLeftColor) : void 0\n    } : void 0;\n    const flTextShadow = flStyle.textShadow !== \"\" && flStyle.textShadow !== \"none\" && flStyle.textShadow !== cs.textShadow ? flStyle.textShadow : void 0;\n    const styledSeg = {\n      text: styledText,\n      x: flGlyphX,\n      y: styledSegY,\n      width: maxR - minL,\n      height: maxB - minT,\n      xOffsets: xoff,\n      color: normColor(flStyle.color),\n      fontFamily: flStyle.fontFamily,\n      fontSize: effectiveFs,\n      fontWeight: flStyle.fontWeight !== cs.fontWeight ? flStyle.fontWeight : void 0,\n      fontStyle: flStyle.fontStyle !== cs.fontStyle ? flStyle.fontStyle : void 0,\n      fontVariant: flStyle.fontVariant !== cs.fontVariant ? flStyle.fontVariant : void 0,\n      fontAscent: effectiveAscent,\n      textShadow: flTextShadow,\n      pseudoBox\n    };\n    return { seg: styledSeg, minL, maxR, minT, maxB };\n  };\n  const captureTextSegments = (el, cs) => {\n    const wm = cs.writingMode;\n    if (wm === \"vertical-rl\" || wm === \"vertical-lr\" || wm === \"sideways-rl\" || wm === \"sideways-lr\") {\n      return finishLineClamp(el, cs, captureVerticalTextSegments(el, cs));\n    }\n    const textSegments = [];\n    let text = \"\";\n    let minLeft = Infinity;\n    let minTop = Infinity;\n    let maxRight = -Infinity;\n    let maxBottom = -Infinity;\n    const flStyle = window.getComputedStyle(el, \"::first-letter\");\n    const elFsRaw = parseFloat(cs.fontSize) || 0;\n    const flFsRaw = parseFloat(flStyle.fontSize) || 0;\n    const flInitialLetterRaw = (flStyle.initialLetter || flStyle.webkitInitialLetter || \"\").trim();\n    const hasInitialLetter = flInitialLetterRaw !== \"\" && flInitialLetterRaw !== \"normal\" && flInitialLetterRaw !== \"auto\";\n    const firstLetterStyled = flFsRaw > 0 && Math.abs(flFsRaw - elFsRaw) > 0.5 || flStyle.color !== \"\" && flStyle.color !== cs.color || flStyle.fontWeight !== \"\" && flStyle.fontWeight !== cs.fontWeight || flStyle.fontFamily !== \"\" && flStyle.fontFamily !== cs.fontFamily || flStyle.fontStyle !== \"\" && flStyle.fontStyle !== cs.fontStyle || flStyle.textShadow !== \"\" && flStyle.textShadow !== \"none\" && flStyle.textShadow !== cs.textShadow || hasInitialLetter;\n    const isFirstLetterPunct = (ch) => /\\p{P}/u.test(ch);\n    const isCombiningMark = (ch) => /\\p{M}/u.test(ch);\n    const selectFirstLetter = (chars) => {\n      let i = 0;\n      while (i < chars.length && /\\s/.test(chars[i].ch)) i++;\n      const start = i;\n      while (i < chars.length && isFirstLetterPunct(chars[i].ch)) i++;\n      if (i < chars.length && !/\\s/.test(chars[i].ch) && !isFirstLetterPunct(chars[i].ch)) {\n        i++;\n        while (i < chars.length && isCombiningMark(chars[i].ch)) i++;\n      }\n      while (i < chars.length && isFirstLetterPunct(chars[i].ch)) i++;\n      return { start, end: i };\n    };\n    let firstLetterChars = null;\n    let firstLetterStartIdx = -1;\n    let firstLetterEndIdx = -1;\n    let didEmitStyledFirstLetter = false;\n    const elTag = el.tagName != null ? el.tagName.toLowerCase() : \"\";\n    const _miText = (el.textContent || \"\").trim();\n    const mathItalicizeMi = elTag === \"mi\" && [..._miText].length === 1 && cs.textTransform === \"math-auto\" && /^[a-zA-ZΑ-ΩΆΈΉΊΌΎΏα-ωϐϑϕϖϗϰϱϵ∂∇]$/u.test(_miText);\n    for (const node of el.childNodes) {\n      if (node.nodeType !== Node.TEXT_NODE) continue;\n      const sourceRaw = node.textContent || \"\";\n      const tt = cs.textTransform;\n      const mapped = transformTextWithSourceSpans(sourceRaw, tt, cs.lang || el.lang || \"\");\n      const raw = mapped.map((part) => part.rendered).join(\"\");\n      if (!raw.trim()) continue;\n      const rawForText = mathItalicizeMi ? mathItalicChar(raw.trim()) : raw.trim();\n      text += rawForText + \" \";\n      const lines = [];\n      let cur = null;\n      for (let sourcePartIndex = 0; sourcePartIndex < mapped.length; sourcePartIndex++) {\n        const part = mapped[sourcePartIndex];\n        const r = document.createRange();\n        r.setStart(node, part.sourceStart);\n        r.setEnd(node, part.sourceEnd);\n        const cr = r.getBoundingClientRect();\n        const isWs = /^\\s+$/.test(part.sourceText);\n        if (cr.width === 0 && (cr.height === 0 || isWs)) continue;\n        let ch = part.rendered;\n        if (mathItalicizeMi) ch = mathItalicChar(ch);\n        let topForGroup = cr.top;\n        let leftForGroup = cr.left;\n        let rightForGroup = cr.right;\n        let bottomForGroup = cr.bottom;\n        if (cur != null && cur.chars.length > 0) {\n          const refH = cur.bottom - cur.top || 16;\n          if (cr.height > refH * 1.5 && cr.bottom > cur.bottom + refH * 0.5) {\n            const peekPart = mapped[sourcePartIndex + 1];\n            if (peekPart != null) {\n              const pr = document.createRange();\n              pr.setStart(node, peekPart.sourceStart);\n              pr.setEnd(node, peekPart.sourceEnd);\n              const pcr = pr.getBoundingClientRect();\n              if (pcr.height > 0 && pcr.height < refH * 1.5) {\n                topForGroup = pcr.top;\n                bottomForGroup = pcr.bottom;\n                leftForGroup = cr.left;\n                rightForGroup = pcr.left;\n              }\n            } else {\n              topForGroup = cr.bottom - refH;\n            }\n          }\n        }\n        const charRec = {\n          ch,\n          sourceText: part.sourceText,\n          left: leftForGroup,\n          top: topForGroup,\n          right: rightForGroup,\n          bottom: bottomForGroup,\n          transformedLengthChanged: ch.length !== part.sourceText.length\n        };\n        if (cur == null || Math.abs(topForGroup - cur.top) > 1) {\n          if (cur != null) lines.push(cur);\n          cur = { chars: [charRec], top: topForGroup, bottom: bottomForGroup, left: leftForGroup, right: rightForGroup };\n        } else {\n          cur.chars.push(charRec);\n          cur.left = Math.min(cur.left, leftForGroup);\n          cur.right = Math.max(cur.right, rightForGroup);\n          cur.bottom = Math.max(cur.bottom, bottomForGroup);\n        }\n      }\n      if (cur != null) lines.push(cur);\n      const fragmentedLines = [];\n      for (const ln of lines) {\n        if (ln.chars.length <= 1) {\n          fragmentedLines.push(ln);\n          continue;\n        }\n        let frag = { chars: [ln.chars[0]], top: ln.top, bottom: ln.bottom };\n        const fragments = [frag];\n        const BIDI_FRAGMENT_GAP_PX = 80;\n        for (let ci = 1; ci < ln.chars.length; ci++) {\n          const prev = ln.chars[ci - 1];\n          const cc = ln.chars[ci];\n          const leftJump = cc.left < prev.left - BIDI_FRAGMENT_GAP_PX;\n          const rightJump = cc.left > prev.right + BIDI_FRAGMENT_GAP_PX;\n          if (leftJump || rightJump) {\n            frag = { chars: [cc], top: ln.top, bottom: ln.bottom };\n            fragments.push(frag);\n          } else {\n            frag.chars.push(cc);\n          }\n        }\n        for (const f of fragments) {\n          let l = Infinity;\n          let r = -Infinity;\n          for (const c of f.chars) {\n            if (c.left < l) l = c.left;\n            if (c.right > r) r = c.right;\n          }\n          f.left = l;\n          f.right = r;\n          fragmentedLines.push(f);\n        }\n      }\n      lines.length = 0;\n      for (const fl of fragmentedLines) lines.push(fl);\n      for (const ln of lines) {\n        ln.text = ln.chars.map((c) => c.ch).join(\"\");\n        ln.sourceText = ln.chars.map((c) => c.sourceText).join(\"\");\n        if (!ln.chars.some((c) => c.transformedLengthChanged)) {\n          const xo = [];\n          for (const c of ln.chars) {\n            for (let k = 0; k < c.ch.length; k++) xo.push(c.left);\n          }\n          ln.xOffsets = xo;\n        }\n      }\n      for (const line of lines) {\n        const visualText = line.text.replace(/[\\t\\n\\r]/g, \" \");\n        if (visualText.replace(/\\s/g, \"\") === \"\") continue;\n        const isFirstStyledLine = firstLetterStyled && firstLetterChars == null;\n        if (isFirstStyledLine) {\n          const sel = selectFirstLetter(line.chars);\n          firstLetterStartIdx = sel.start;\n          firstLetterEndIdx = sel.end;\n          firstLetterChars = [];\n        }\n        const rasterGlyphs = [];\n        const rasterSpans = rasterCandidates(visualText, cs.fontVariantEmoji);\n        const rasterSpanAt = new Map(rasterSpans.map((span) => [span.start, span]));\n        const dottedCircleMarks = [];\n        let probeConsulted = false;\n        let clusterHasBase = false;\n        let utf16Idx = 0;\n        for (let ci = 0; ci < line.chars.length; ci++) {\n          const cRec = line.chars[ci];\n          const cp = cRec.ch.codePointAt(0);\n          const isMark = /\\p{M}/u.test(cRec.ch);\n          const isWs = /^\\s+$/.test(cRec.ch);\n          const isClusterLetter = !isMark && /\\p{Lo}|\\p{Lm}/u.test(cRec.ch);\n          let flaggedHere = false;\n          if (markGetsDottedCircle != null && (isMark || isClusterLetter) && !clusterHasBase && cp != null) {\n            probeConsulted = true;\n            if (markGetsDottedCircle(cp, cRec.ch, cs.fontFamily)) {\n              dottedCircleMarks.push(utf16Idx);\n              flaggedHere = true;\n            }\n          }\n          if (flaggedHere) {\n            clusterHasBase = true;\n          } else if (isMark) {\n          } else if (isWs) {\n            clusterHasBase = false;\n          } else if (isShapingTransparentControl(cRec.ch)) {\n          } else {\n            clusterHasBase = true;\n          }\n          const isFirstLetterChar = isFirstStyledLine && ci >= firstLetterStartIdx && ci < firstLetterEndIdx;\n          if (isFirstLetterChar) {\n            firstLetterChars.push(cRec);\n            rasterGlyphs.push({\n              charIndex: utf16Idx,\n              rect: { x: 0, y: 0, width: 0, height: 0 },\n              suppressGlyph: true\n            });\n          } else if (cp != null && rasterSpanAt.has(utf16Idx)) {\n            const span = rasterSpanAt.get(utf16Idx);\n            let spanRight = cRec.right;\n            let spanBottom = cRec.bottom;\n            let spanCi = ci + 1;\n            let spanUtf16 = utf16Idx + cRec.ch.length;\n            while (spanCi < line.chars.length && spanUtf16 < span.end) {\n              const member = line.chars[spanCi++];\n              spanRight = Math.max(spanRight, member.right);\n              spanBottom = Math.max(spanBottom, member.bottom);\n              spanUtf16 += member.ch.length;\n            }\n            rasterGlyphs.push({\n              charIndex: utf16Idx,\n              charLength: span.end - span.start,\n              rect: {\n                x: cRec.left - vp.x,\n                y: cRec.top - vp.y,\n                width: spanRight - cRec.left,\n                height: spanBottom - cRec.top\n              },\n              // DM-905: the embedded-font default path emits the codepoint\n              // as a PUA `<text>` against the system fallback subset font\n              // where it lands as the font's .notdef tofu — peeking out\n              // past the rasterGlyph overlay's edges. Suppressing the glyph\n              // replaces the codepoint with ZWSP before the emit so only\n              // the raster image paints.\n              suppressGlyph: true\n            });\n          }\n          utf16Idx += cRec.ch.length;\n        }\n        textSegments.push({\n          text: visualText,\n          sourceText: line.sourceText,\n          x: line.left - vp.x,\n          y: line.top - vp.y,\n          width: line.right - line.left,\n          height: line.bottom - line.top,\n          // A length-changing transform (e.g. ß → SS) has one DOM Range for\n          // multiple rendered codepoints, so CSSOM exposes no internal glyph\n          // anchors. Let HarfBuzz shape that rendered run normally instead of\n          // inventing duplicate offsets from the source span.\n          xOffsets: line.xOffsets?.map((v) => v - vp.x),\n          // AX exposes the exact retained fragment after this synchronous\n          // walk. Keep Range advances so the refinement can remove laid-out\n          // but unpainted clamp-tail glyphs without estimating their widths.\n          xAdvances: line.xOffsets == null ? void 0 : line.chars.flatMap((c) => Array.from({ length: c.ch.length }, () => c.right - c.left)),\n          rasterGlyphs: rasterGlyphs.length > 0 ? rasterGlyphs : void 0,\n          dottedCircleMarks: dottedCircleMarks.length > 0 ? dottedCircleMarks : probeConsulted ? [] : void 0\n        });\n        minLeft = Math.min(minLeft, line.left);\n        minTop = Math.min(minTop, line.top);\n        maxRight = Math.max(maxRight, line.right);\n        maxBottom = Math.max(maxBottom, line.bottom);\n      }\n    }\n    if (firstLetterChars != null && firstLetterChars.length > 0) {\n      const fl = buildFirstLetterSegment(firstLetterChars, flStyle, hasInitialLetter, el, cs);\n      textSegments.unshift(fl.seg);\n      didEmitStyledFirstLetter = true;\n      minLeft = Math.min(minLeft, fl.minL);\n      minTop = Math.min(minTop, fl.minT);\n      maxRight = Math.max(maxRight, fl.maxR);\n      maxBottom = Math.max(maxBottom, fl.maxB);\n    }\n    const flLineTargetIdx = didEmitStyledFirstLetter ? 1 : 0;\n    if (textSegments.length > flLineTargetIdx) {\n      const flLineStyle = window.getComputedStyle(el, \"::first-line\");\n      const firstSeg = textSegments[flLineTargetIdx];\n      if (flLineStyle.textTransform !== cs.textTransform && firstSeg.sourceText != null) {\n        const firstLineMap = transformTextWithSourceSpans(\n          firstSeg.sourceText,\n          flLineStyle.textTransform,\n          flLineStyle.lang || cs.lang || el.lang || \"\"\n        );\n        firstSeg.text = firstLineMap.map((part) => part.rendered).join(\"\").replace(/[\\t\\n\\r]/g, \" \");\n        if (firstLineMap.some((part) => part.rendered.length !== part.sourceText.length)) firstSeg.xOffsets = void 0;\n      }\n      if (flLineStyle.fontVariant !== \"\" && flLineStyle.fontVariant !== cs.fontVariant) {\n        firstSeg.fontVariant = flLineStyle.fontVariant;\n      }\n      if (flLineStyle.color !== \"\" && flLineStyle.color !== cs.color) {\n        firstSeg.color = flLineStyle.color;\n      }\n      if (flLineStyle.fontWeight !== \"\" && flLineStyle.fontWeight !== cs.fontWeight) {\n        firstSeg.fontWeight = flLineStyle.fontWeight;\n      }\n      if (flLineStyle.fontStyle !== \"\" && flLineStyle.fontStyle !== cs.fontStyle) {\n        firstSeg.fontStyle = flLineStyle.fontStyle;\n      }\n      const flFs = parseFloat(flLineStyle.fontSize);\n      const elFs2 = parseFloat(cs.fontSize);\n      if (flFs > 0 && Math.abs(flFs - elFs2) > 0.1) {\n        firstSeg.fontSize = flFs;\n      }\n    }\n    text = text.trim();\n    if (minLeft < Infinity) {\n      const metrics = measureFontMetrics(cs);\n      return finishLineClamp(el, cs, {\n        applied: true,\n        text,\n        textSegments,\n        textLeft: minLeft - vp.x,\n        textTop: minTop - vp.y,\n        textWidth: maxRight - minLeft,\n        textHeight: maxBottom - minTop,\n        fontAscent: metrics.ascent,\n        fontDescent: metrics.descent\n      });\n    }\n    return finishLineClamp(el, cs, { applied: true, text, textSegments });\n  };\n  return { captureTextSegments };\n};\nvar createTextSegmentsHandler = (dependencies) => buildTextSegmentsHandler(dependencies);\n\n// src/capture/script/walker/pseudo-inject.ts\nvar createPseudoInjectHandler = () => {\n  const injectPseudoSegments = (el, pseudoSegments, textSegments, state) => {\n    const pseudoImages = [];\n    let { text, textLeft, textTop, textWidth, textHeight, fontAscent } = state;\n    for (const p of pseudoSegments) {\n      if (p.imageUrl) {\n        const mL = p.boxMarginLeft || 0;\n        const mR = p.boxMarginRight || 0;\n        const bL = p.boxBorderLeft || 0;\n        const bR = p.boxBorderRight || 0;\n        const pL = p.boxPaddingLeft || 0;\n        const pR = p.boxPaddingRight || 0;\n        if (p.isBefore && textSegments.length > 0) {\n          const firstSeg = textSegments[0];\n          p.seg.x = firstSeg.x - p.seg.width - pR - bR - mR;\n          p.seg.y = firstSeg.y + (firstSeg.height - p.seg.height) / 2;\n        } else if (!p.isBefore && textSegments.length > 0) {\n          const lastSeg = textSegments[textSegments.length - 1];\n          p.seg.x = lastSeg.x + lastSeg.width + mL + bL + pL;\n          p.seg.y = lastSeg.y + (lastSeg.height - p.seg.height) / 2;\n        }\n        pseudoImages.push({\n          url: p.imageUrl,\n          x: p.seg.x,\n          y: p.seg.y,\n          width: p.renderWidth,\n          height: p.renderHeight,\n          filter: p.filter,\n          opacity: p.opacity,\n          transform: p.transform,\n          transformOrigin: p.transformOrigin\n        });\n        continue;\n      }\n      if (p.isPositioned) {\n        if (p.isBefore) textSegments.unshift(p.seg);\n        else textSegments.push(p.seg);\n      } else if (p.isBefore && textSegments.length > 0) {\n        const firstSeg = textSegments[0];\n        const bs = p.boxStyles || {};\n        const mRb = parseFloat(window.getComputedStyle(el, \"::before\").marginRight) || 0;\n        const flushX = firstSeg.x - p.seg.width - (bs.padR || 0) - (bs.borR || 0) - mRb;\n        p.seg.x = Math.min(flushX, p.seg.x);\n        p.seg.y = firstSeg.y;\n        p.seg.height = firstSeg.height;\n        textSegments.unshift(p.seg);\n      } else if (!p.isBefore && textSegments.length > 0) {\n        const lastSeg = textSegments[textSegments.length - 1];\n        const bs = p.boxStyles || {};\n        const mLa = parseFloat(window.getComputedStyle(el, \"::after\").marginLeft) || 0;\n        const hcs = window.getComputedStyle(el);\n        const hostIsFlex = hcs.display === \"flex\" || hcs.display === \"inline-flex\";\n        const hostJc = hcs.justifyContent;\n        const flexSpread = hostIsFlex && hostJc != null && hostJc !== \"\" && hostJc !== \"flex-start\" && hostJc !== \"start\" && hostJc !== \"normal\";\n        if (flexSpread) {\n          if (hcs.alignItems === \"center\") {\n            const elRect2 = el.getBoundingClientRect();\n            const padT = parseFloat(hcs.paddingTop) || 0;\n            const padB = parseFloat(hcs.paddingBottom) || 0;\n            const borT = parseFloat(hcs.borderTopWidth) || 0;\n            const borB = parseFloat(hcs.borderBottomWidth) || 0;\n            const contentCenterY = elRect2.top + borT + padT + (elRect2.height - borT - borB - padT - padB) / 2;\n            const pseudoFs = p.seg.fontSize || lastSeg.height;\n            let lineH = parseFloat(window.getComputedStyle(el, \"::after\").lineHeight);\n            if (isNaN(lineH) || lineH <= 0) lineH = pseudoFs * 1.2;\n            p.seg.y = contentCenterY - lineH / 2;\n            p.seg.height = pseudoFs;\n          } else {\n            p.seg.y = lastSeg.y;\n            p.seg.height = lastSeg.height;\n          }\n        } else {\n          p.seg.x = lastSeg.x + lastSeg.width + mLa + (bs.borL || 0) + (bs.padL || 0);\n          p.seg.y = lastSeg.y;\n          p.seg.height = lastSeg.height;\n        }\n        const elRect = el.getBoundingClientRect();\n        const ecs = window.getComputedStyle(el);\n        const pdL = parseFloat(ecs.paddingLeft) || 0;\n        const bdL = parseFloat(ecs.borderLeftWidth) || 0;\n        const lastBottom = lastSeg.y + lastSeg.height;\n        const elBottom = elRect.bottom - (parseFloat(ecs.paddingBottom) || 0) - (parseFloat(ecs.borderBottomWidth) || 0);\n        const wrapThreshold = lastSeg.height * 0.8;\n        if (elBottom - lastBottom >= wrapThreshold) {\n          p.seg.x = elRect.x + bdL + pdL;\n          p.seg.y = lastBottom;\n          const trimmedText = p.seg.text.replace(/^\\s+/, \"\");\n          if (trimmedText !== p.seg.text && trimmedText !== \"\") {\n            const aps = window.getComputedStyle(el, \"::after\");\n            const sp = document.createElement(\"span\");\n            sp.style.cssText = \"position:absolute;visibility:hidden;white-space:pre;left:-99999px;top:-99999px;margin:0;padding:0;border:0\";\n            sp.style.fontFamily = aps.fontFamily;\n            sp.style.fontSize = aps.fontSize;\n            sp.style.fontWeight = aps.fontWeight;\n            sp.style.fontStyle = aps.fontStyle;\n            sp.style.letterSpacing = aps.letterSpacing;\n            sp.textContent = trimmedText;\n            document.body.appendChild(sp);\n            const wTrim = sp.getBoundingClientRect().width;\n            sp.remove();\n            p.seg.text = trimmedText;\n            if (wTrim > 0) p.seg.width = wTrim;\n          }\n        }\n        textSegments.push(p.seg);\n      } else if (!p.isBefore) {\n        const ps = window.getComputedStyle(el, \"::after\");\n        const sentinel = document.createElement(\"span\");\n        sentinel.style.cssText = \"visibility:hidden;pointer-events:none;white-space:pre\";\n        sentinel.style.fontFamily = ps.fontFamily;\n        sentinel.style.fontSize = ps.fontSize;\n        sentinel.style.fontWeight = ps.fontWeight;\n        sentinel.style.fontStyle = ps.fontStyle;\n        sentinel.style.letterSpacing = ps.letterSpacing;\n        sentinel.style.marginLeft = ps.marginLeft;\n        sentinel.textContent = p.seg.text;\n        el.appendChild(sentinel);\n        const sr = sentinel.getBoundingClientRect();\n        sentinel.remove();\n        if (sr.width > 0 || sr.height > 0) {\n          p.seg.x = sr.left;\n          p.seg.y = sr.top + (sr.height - p.seg.height) / 2;\n        }\n        textSegments.push(p.seg);\n      } else {\n        textSegments.push(p.seg);\n      }\n      if (textSegments.length === 1 && textSegments[0] === p.seg) {\n        textLeft = p.seg.x;\n        textTop = p.seg.y;\n        textWidth = p.seg.width;\n        textHeight = p.seg.height;\n        if (p.seg.fontAscent != null) fontAscent = p.seg.fontAscent;\n      }\n      if (p.seg.rasterRect != null) {\n        const isHostSized = p.seg.rasterRect.width > p.seg.width + 1;\n        if (!isHostSized) {\n          p.seg.rasterRect.x = p.seg.x;\n          p.seg.rasterRect.y = p.seg.y;\n          p.seg.rasterRect.height = p.seg.height;\n          if (p.seg.rasterEmojiSide != null && p.seg.rasterEmojiSide > p.seg.height) {\n            const vpad = (p.seg.rasterEmojiSide - p.seg.height) / 2;\n            p.seg.rasterRect.y -= vpad;\n            p.seg.rasterRect.height += 2 * vpad;\n          }\n        }\n      }\n      if (p.boxStyles != null) {\n        const bs = p.boxStyles;\n        const lineCenter = p.seg.y + bs.fontSize / 2;\n        const boxTop = lineCenter - bs.lineH / 2 - bs.padT - bs.borT;\n        const bx = p.seg.x - bs.padL - bs.borL;\n        const bw = bs.measuredWidth || p.seg.width + bs.padL + bs.padR + bs.borL + bs.borR;\n        const bh = bs.measuredHeight || bs.lineH + bs.padT + bs.padB + bs.borT + bs.borB;\n        if (bw > 0 && bh > 0) {\n          p.seg.pseudoBox = {\n            x: bx,\n            y: boxTop,\n            width: bw,\n            height: bh,\n            backgroundColor: bs.backgroundColor,\n            // DM-782: gradient/url() bg-image plumbing — renderer threads\n            // each comma-separated layer through `buildBackgroundLayerDef`\n            // and paints rect(s) behind the glyphs (mirrors the empty-\n            // content pseudoBox path in `element-tree-to-svg.ts`).\n            backgroundImage: bs.backgroundImage,\n            borderRadius: bs.borderRadius,\n            borderWidth: bs.borderWidth,\n            borderColor: bs.borderColor,\n            // Per-side widths + colors for non-uniform borders (e.g. a\n            // bare `border-bottom` on a pseudo). Width fields are always\n            // emitted so the renderer doesn't have to fall back to zero\n            // when a `borderWidth` (uniform) shorthand is absent.\n            borL: bs.borL,\n            borR: bs.borR,\n            borT: bs.borT,\n            borB: bs.borB,\n            borderTopColor: bs.borderTopColor,\n            borderRightColor: bs.borderRightColor,\n            borderBottomColor: bs.borderBottomColor,\n            borderLeftColor: bs.borderLeftColor,\n            // DM-783: pseudo's `transform` + `transformOrigin`. Renderer\n            // wraps the box + glyphs in a pre-baked\n            // translate-(transform)-translate matrix so the rotation/scale\n            // pivots around the box-relative origin instead of (0,0).\n            transform: bs.transform,\n            transformOrigin: bs.transformOrigin,\n            filter: bs.filter,\n            opacity: bs.opacity\n          };\n        }\n      }\n      text = p.isBefore ? p.seg.text + \" \" + text : text + \" \" + p.seg.text;\n    }\n    return { pseudoImages, text, textLeft, textTop, textWidth, textHeight, fontAscent };\n  };\n  return { injectPseudoSegments };\n};\n\n// src/render/resize-handle.ts\nfunction blinkOverflowValueIsScrollable(value) {\n  const normalized = value?.trim().toLowerCase();\n  return normalized != null && normalized !== \"visible\" && normalized !== \"clip\";\n}\nfunction blinkIsScrollContainer(input) {\n  return input.isLayoutReplaced !== true && (blinkOverflowValueIsScrollable(input.overflowX) || blinkOverflowValueIsScrollable(input.overflowY));\n}\nfunction blinkCanResize(input) {\n  const resize = input.resize?.trim().toLowerCase();\n  return resize != null && resize !== \"none\" && (input.isLayoutIFrame === true || blinkIsScrollContainer(input));\n}\nfunction blinkResizerIsOnLogicalLeft(direction, writingMode) {\n  return direction?.trim().toLowerCase() === \"rtl\" && (writingMode == null || writingMode.trim().toLowerCase() === \"horizontal-tb\");\n}\nfunction blinkResizerThickness(input) {\n  const vertical = input.verticalScrollbarThickness;\n  const horizontal = input.horizontalScrollbarThickness;\n  if (vertical == null && horizontal == null) {\n    return {\n      width: input.themeThickness,\n      height: input.themeThickness,\n      hasScrollbar: false\n    };\n  }\n  if (vertical != null && horizontal == null) {\n    return { width: vertical, height: vertical, hasScrollbar: true };\n  }\n  if (vertical == null && horizontal != null) {\n    return { width: horizontal, height: horizontal, hasScrollbar: true };\n  }\n  return { width: vertical, height: horizontal, hasScrollbar: true };\n}\nfunction blinkPixelSnappedSize(size, location2) {\n  let snapped = Math.round(location2 + size) - Math.round(location2);\n  if (snapped === 0 && Math.abs(size) > 4 / 64) snapped = size > 0 ? 1 : -1;\n  return snapped;\n}\nfunction blinkResizerCorner(input) {\n  const originX = Math.round(input.x);\n  const originY = Math.round(input.y);\n  const snappedWidth = blinkPixelSnappedSize(input.borderBoxWidth, input.x);\n  const snappedHeight = blinkPixelSnappedSize(input.borderBoxHeight, input.y);\n  return {\n    x: originX + (input.logicalLeft ? input.borderLeftWidth : snappedWidth - input.cornerWidth - input.borderRightWidth),\n    y: originY + snappedHeight - input.cornerHeight - input.borderBottomWidth,\n    width: input.cornerWidth,\n    height: input.cornerHeight\n  };\n}\nfunction blinkUsesCustomResizer(canResize, isScrollContainer, pseudoRuleMatched) {\n  return canResize && isScrollContainer && pseudoRuleMatched;\n}\n\n// src/capture/script/walker/resize-handle.ts\nvar _layoutReplacedTags = /* @__PURE__ */ new Set([\n  \"img\",\n  \"video\",\n  \"canvas\",\n  \"object\",\n  \"embed\",\n  \"audio\",\n  \"iframe\",\n  \"input\",\n  \"select\"\n]);\nvar _hasAxisScrollbar = (overflow, scrollExtent, clientExtent) => {\n  if (overflow === \"scroll\") return true;\n  return overflow === \"auto\" && scrollExtent > clientExtent;\n};\nvar createResizeHandleHandler = ({\n  resolvePseudo,\n  normColor,\n  effectiveZoomFor,\n  themeThickness,\n  scaleFromDIP,\n  vp\n}) => {\n  const captureResizeHandle = (el, cs, tag, rect) => {\n    const activation = {\n      resize: cs.resize,\n      overflowX: cs.overflowX,\n      overflowY: cs.overflowY,\n      isLayoutReplaced: _layoutReplacedTags.has(tag),\n      isLayoutIFrame: tag === \"iframe\"\n    };\n    if (!blinkCanResize(activation)) return void 0;\n    const isScrollContainer = blinkIsScrollContainer(activation);\n    const zoom = effectiveZoomFor(el);\n    const borderLeft = Math.round((parseFloat(cs.borderLeftWidth) || 0) * zoom);\n    const borderRight = Math.round((parseFloat(cs.borderRightWidth) || 0) * zoom);\n    const borderBottom = Math.round((parseFloat(cs.borderBottomWidth) || 0) * zoom);\n    const hasVertical = isScrollContainer && _hasAxisScrollbar(cs.overflowY, el.scrollHeight, el.clientHeight);\n    const hasHorizontal = isScrollContainer && _hasAxisScrollbar(cs.overflowX, el.scrollWidth, el.clientWidth);\n    const verticalGap = Math.max(0, rect.width - el.clientWidth * zoom - borderLeft - borderRight);\n    const horizontalGap = Math.max(\n      0,\n      rect.height - el.clientHeight * zoom - Math.round((parseFloat(cs.borderTopWidth) || 0) * zoom) - borderBottom\n    );\n    const thickness = blinkResizerThickness({\n      themeThickness,\n      verticalScrollbarThickness: hasVertical ? verticalGap > 0.5 ? Math.round(verticalGap) : themeThickness : null,\n      horizontalScrollbarThickness: hasHorizontal ? horizontalGap > 0.5 ? Math.round(horizontalGap) : themeThickness : null\n    });\n    const logicalLeft = blinkResizerIsOnLogicalLeft(cs.direction, cs.writingMode);\n    const corner = blinkResizerCorner({\n      x: rect.left,\n      y: rect.top,\n      borderBoxWidth: rect.width,\n      borderBoxHeight: rect.height,\n      borderLeftWidth: borderLeft,\n      borderRightWidth: borderRight,\n      borderBottomWidth: borderBottom,\n      cornerWidth: thickness.width,\n      cornerHeight: thickness.height,\n      logicalLeft\n    });\n    const pseudo = resolvePseudo(el, \"resizer\");\n    const custom = blinkUsesCustomResizer(true, isScrollContainer, pseudo.matched) ? {\n      // Authored dimensions are evidence only. Blink overrides the custom\n      // layout object's size with CornerRect before ObjectPainter runs.\n      authoredWidth: pseudo.width || void 0,\n      authoredHeight: pseudo.height || void 0,\n      backgroundColor: pseudo.backgroundColor ? normColor(pseudo.backgroundColor) : void 0,\n      backgroundImage: pseudo.backgroundImage || void 0,\n      borderRadius: pseudo.borderRadius || void 0,\n      border: pseudo.border || void 0,\n      boxShadow: pseudo.boxShadow || void 0,\n      effectiveZoom: zoom\n    } : void 0;\n    return {\n      x: corner.x - vp.x,\n      y: corner.y - vp.y,\n      width: corner.width,\n      height: corner.height,\n      logicalLeft,\n      scaleFromDIP,\n      hasScrollbar: thickness.hasScrollbar,\n      custom\n    };\n  };\n  return { captureResizeHandle };\n};\n\n// src/capture/script/line-clamp.ts\nvar parseBlinkLineClampCount = (value) => {\n  if (typeof value !== \"string\" || !/^\\s*[1-9]\\d*\\s*$/.test(value)) return null;\n  const count = Number.parseInt(value, 10);\n  return Number.isSafeInteger(count) && count > 0 ? count : null;\n};\nvar blinkLineClampActivation = ({\n  webkitLineClamp,\n  webkitBoxOrient,\n  computedDisplay,\n  behaviorallyClamps\n}) => {\n  const clampCount = parseBlinkLineClampCount(webkitLineClamp);\n  if (clampCount == null) return null;\n  if (webkitBoxOrient !== \"vertical\") return null;\n  if (computedDisplay !== \"flow-root\") return null;\n  if (behaviorallyClamps !== true) return null;\n  return { clampCount };\n};\nvar blinkLineClampEllipsisText = (primaryFontHasHorizontalEllipsis) => primaryFontHasHorizontalEllipsis ? \"\\u2026\" : \"...\";\nvar blinkShouldEmitLineClampEllipsis = ({\n  active,\n  clampCount,\n  totalLineCount,\n  emptyLine = false,\n  blockInInline = false\n}) => active === true && Number.isInteger(clampCount) && clampCount > 0 && totalLineCount > clampCount && !emptyLine && !blockInInline;\nvar blinkLineClampInlineStart = ({\n  direction,\n  adjacentInlineStart,\n  adjacentInlineEnd,\n  ellipsisAdvance\n}) => direction === \"rtl\" ? adjacentInlineStart - ellipsisAdvance : adjacentInlineEnd;\nvar blinkLineClampLineIsVisible = (logicalLineIndex, clampCount) => Number.isInteger(logicalLineIndex) && Number.isInteger(clampCount) && logicalLineIndex >= 0 && logicalLineIndex < clampCount;\nvar VERTICAL_WRITING_RE = /^(?:vertical|sideways)-/;\nvar collectTextCharacters = (root, vertical) => {\n  const chars = [];\n  const walker = root.ownerDocument.createTreeWalker(root, NodeFilter.SHOW_TEXT);\n  for (let node = walker.nextNode(); node != null; node = walker.nextNode()) {\n    const owner = node.parentElement;\n    if (owner == null) continue;\n    const ownerStyle = getComputedStyle(owner);\n    if (ownerStyle.display === \"none\" || ownerStyle.visibility === \"hidden\") continue;\n    const source = node.textContent || \"\";\n    for (let offset = 0; offset < source.length; ) {\n      const cp = source.codePointAt(offset);\n      const ch = String.fromCodePoint(cp);\n      const range = root.ownerDocument.createRange();\n      range.setStart(node, offset);\n      range.setEnd(node, offset + ch.length);\n      const rect = range.getBoundingClientRect();\n      const inlineAdvance = vertical ? rect.height : rect.width;\n      if (rect.width > 0 && rect.height > 0 && !(inlineAdvance === 0 && /^\\s+$/u.test(ch))) {\n        chars.push({\n          node,\n          owner,\n          ch,\n          left: rect.left,\n          right: rect.right,\n          top: rect.top,\n          bottom: rect.bottom\n        });\n      }\n      offset += ch.length;\n    }\n  }\n  return chars;\n};\nvar groupLogicalLines = (chars, writingMode) => {\n  const vertical = VERTICAL_WRITING_RE.test(writingMode);\n  const groups = [];\n  for (const char of chars) {\n    const offset = vertical ? char.left : char.top;\n    let line = groups.find((candidate) => Math.abs(candidate.blockOffset - offset) <= 1);\n    if (line == null) {\n      line = { blockOffset: offset, chars: [] };\n      groups.push(line);\n    }\n    line.chars.push(char);\n  }\n  groups.sort((a, b) => a.blockOffset - b.blockOffset);\n  if (writingMode === \"vertical-rl\" || writingMode === \"sideways-rl\") groups.reverse();\n  return groups;\n};\nvar behaviorallyClampsInClone = (el, cs, writingMode) => {\n  const parent = el.parentNode;\n  if (parent == null) return false;\n  const clone = el.cloneNode(true);\n  clone.setAttribute(\"aria-hidden\", \"true\");\n  clone.inert = true;\n  clone.style.setProperty(\"position\", \"fixed\", \"important\");\n  clone.style.setProperty(\"left\", \"-100000px\", \"important\");\n  clone.style.setProperty(\"top\", \"0\", \"important\");\n  clone.style.setProperty(\"visibility\", \"hidden\", \"important\");\n  clone.style.setProperty(\"pointer-events\", \"none\", \"important\");\n  clone.style.setProperty(\"content-visibility\", \"visible\", \"important\");\n  clone.style.setProperty(\"contain\", \"none\", \"important\");\n  if (VERTICAL_WRITING_RE.test(writingMode)) {\n    clone.style.setProperty(\"height\", cs.height, \"important\");\n    clone.style.setProperty(\"width\", \"auto\", \"important\");\n    clone.style.setProperty(\"min-width\", \"0\", \"important\");\n    clone.style.setProperty(\"max-width\", \"none\", \"important\");\n  } else {\n    clone.style.setProperty(\"width\", cs.width, \"important\");\n    clone.style.setProperty(\"height\", \"auto\", \"important\");\n    clone.style.setProperty(\"min-height\", \"0\", \"important\");\n    clone.style.setProperty(\"max-height\", \"none\", \"important\");\n  }\n  clone.style.setProperty(\"overflow\", \"visible\", \"important\");\n  parent.insertBefore(clone, el.nextSibling);\n  try {\n    return VERTICAL_WRITING_RE.test(writingMode) ? clone.scrollWidth > clone.clientWidth + 0.5 : clone.scrollHeight > clone.clientHeight + 0.5;\n  } finally {\n    clone.remove();\n  }\n};\nvar firstFamily = (familyList) => {\n  const match = /^\\s*(?:\"([^\"]+)\"|'([^']+)'|([^,]+))/.exec(familyList || \"\");\n  return (match?.[1] || match?.[2] || match?.[3] || familyList || \"sans-serif\").trim();\n};\nvar primaryFontHasEllipsis = (doc, cs) => {\n  const primary = firstFamily(cs.fontFamily).toLowerCase();\n  let sawMatchingFace = false;\n  for (const face of doc.fonts) {\n    if ((face.family || \"\").replace(/^['\"]|['\"]$/g, \"\").toLowerCase() !== primary) continue;\n    sawMatchingFace = true;\n    const range = face.unicodeRange || \"U+0-10FFFF\";\n    const covers = range.split(\",\").some((part) => {\n      const match = /U\\+([0-9a-f?]+)(?:-([0-9a-f]+))?/i.exec(part.trim());\n      if (match == null) return false;\n      if (match[1].includes(\"?\")) {\n        const lo2 = Number.parseInt(match[1].replace(/\\?/g, \"0\"), 16);\n        const hi2 = Number.parseInt(match[1].replace(/\\?/g, \"f\"), 16);\n        return 8230 >= lo2 && 8230 <= hi2;\n      }\n      const lo = Number.parseInt(match[1], 16);\n      const hi = match[2] == null ? lo : Number.parseInt(match[2], 16);\n      return 8230 >= lo && 8230 <= hi;\n    });\n    if (covers) return true;\n  }\n  return !sawMatchingFace;\n};\nvar measureMarker = (doc, cs, text, writingMode, scale) => {\n  const probe = doc.createElement(\"span\");\n  probe.setAttribute(\"aria-hidden\", \"true\");\n  probe.textContent = text;\n  probe.style.cssText = \"position:fixed;left:-100000px;top:0;display:inline-block;visibility:hidden;white-space:pre;margin:0;padding:0;border:0;\";\n  probe.style.fontFamily = cs.fontFamily;\n  probe.style.fontSize = cs.fontSize;\n  probe.style.fontWeight = cs.fontWeight;\n  probe.style.fontStyle = cs.fontStyle;\n  probe.style.fontStretch = cs.fontStretch;\n  probe.style.fontKerning = cs.fontKerning;\n  probe.style.fontFeatureSettings = cs.fontFeatureSettings;\n  probe.style.fontVariationSettings = cs.fontVariationSettings;\n  probe.style.fontVariant = cs.fontVariant;\n  probe.style.letterSpacing = cs.letterSpacing;\n  probe.style.lineHeight = cs.lineHeight;\n  probe.style.direction = cs.direction;\n  probe.style.writingMode = writingMode;\n  probe.style.textOrientation = cs.textOrientation;\n  doc.body.appendChild(probe);\n  try {\n    const rect = probe.getBoundingClientRect();\n    return {\n      inlineAdvance: (VERTICAL_WRITING_RE.test(writingMode) ? rect.height : rect.width) * scale,\n      width: rect.width * scale,\n      height: rect.height * scale\n    };\n  } finally {\n    probe.remove();\n  }\n};\nvar createLineClampHandler = ({ vp, measureFontMetrics, normColor, effectiveZoomFor }) => {\n  const contexts = /* @__PURE__ */ new WeakMap();\n  let probeSequence = 0;\n  const analyzeRoot = (el, cs) => {\n    if (contexts.has(el)) return contexts.get(el);\n    const parsed = parseBlinkLineClampCount(cs.webkitLineClamp || \"\");\n    if (parsed == null || cs.webkitBoxOrient !== \"vertical\" || cs.display !== \"flow-root\") {\n      contexts.set(el, null);\n      return null;\n    }\n    const writingMode = cs.writingMode || \"horizontal-tb\";\n    const vertical = VERTICAL_WRITING_RE.test(writingMode);\n    const chars = collectTextCharacters(el, vertical);\n    const lines = groupLogicalLines(chars, writingMode);\n    if (lines.length <= parsed) {\n      contexts.set(el, null);\n      return null;\n    }\n    const activation = blinkLineClampActivation({\n      webkitLineClamp: cs.webkitLineClamp,\n      webkitBoxOrient: cs.webkitBoxOrient,\n      computedDisplay: cs.display,\n      behaviorallyClamps: behaviorallyClampsInClone(el, cs, writingMode)\n    });\n    if (activation == null) {\n      contexts.set(el, null);\n      return null;\n    }\n    const clampLine = lines[activation.clampCount - 1];\n    if (clampLine == null || clampLine.chars.length === 0) {\n      contexts.set(el, null);\n      return null;\n    }\n    const direction = cs.direction === \"rtl\" ? \"rtl\" : \"ltr\";\n    const scale = effectiveZoomFor?.(el) || 1;\n    const markerText = blinkLineClampEllipsisText(primaryFontHasEllipsis(el.ownerDocument, cs));\n    const measured = measureMarker(el.ownerDocument, cs, markerText, writingMode, scale);\n    const inlineStarts = clampLine.chars.map((char) => vertical ? char.top : char.left);\n    const inlineEnds = clampLine.chars.map((char) => vertical ? char.bottom : char.right);\n    const adjacentInlineStart = Math.min(...inlineStarts);\n    const adjacentInlineEnd = Math.max(...inlineEnds);\n    const inlineStart = blinkLineClampInlineStart({\n      direction,\n      adjacentInlineStart,\n      adjacentInlineEnd,\n      ellipsisAdvance: measured.inlineAdvance\n    });\n    const adjacent = direction === \"rtl\" ? clampLine.chars.reduce((best, char) => (vertical ? char.top : char.left) < (vertical ? best.top : best.left) ? char : best) : clampLine.chars.reduce((best, char) => (vertical ? char.bottom : char.right) > (vertical ? best.bottom : best.right) ? char : best);\n    const adjacentStyle = getComputedStyle(adjacent.owner);\n    const adjacentAscent = measureFontMetrics(adjacentStyle).ascent * (effectiveZoomFor?.(adjacent.owner) || 1);\n    const rootMetrics = measureFontMetrics(cs);\n    const rootAscent = rootMetrics.ascent * scale;\n    const baseline = vertical ? adjacent.left + adjacentAscent : adjacent.top + adjacentAscent;\n    const lineLeft = Math.min(...clampLine.chars.map((char) => char.left));\n    const lineRight = Math.max(...clampLine.chars.map((char) => char.right));\n    const lineTop = Math.min(...clampLine.chars.map((char) => char.top));\n    const lineBottom = Math.max(...clampLine.chars.map((char) => char.bottom));\n    const marker = vertical ? {\n      text: markerText,\n      x: lineLeft - vp.x,\n      y: inlineStart - vp.y,\n      width: lineRight - lineLeft,\n      height: measured.inlineAdvance,\n      yOffsets: [inlineStart - vp.y],\n      verticalWritingMode: writingMode,\n      verticalOrientations: [\"rotated\"],\n      verticalAdvances: [measured.inlineAdvance],\n      verticalNaturalWidths: [measured.width],\n      fontAscent: rootMetrics.ascent\n    } : {\n      text: markerText,\n      x: inlineStart - vp.x,\n      y: baseline - rootAscent - vp.y,\n      width: measured.inlineAdvance,\n      height: lineBottom - lineTop,\n      xOffsets: [inlineStart - vp.x],\n      fontAscent: rootMetrics.ascent\n    };\n    Object.assign(marker, {\n      generatedLineClampEllipsis: true,\n      shapedWidth: measured.inlineAdvance,\n      baseline: baseline - (vertical ? vp.x : vp.y),\n      inlineOffset: inlineStart - (vertical ? vp.y : vp.x),\n      color: normColor(cs.color),\n      fontFamily: cs.fontFamily,\n      fontSize: Number.parseFloat(cs.fontSize) || void 0,\n      fontWeight: cs.fontWeight,\n      fontStyle: cs.fontStyle,\n      fontVariant: cs.fontVariant\n    });\n    const probeId = `dm2417-${probeSequence++}`;\n    el.setAttribute(\"data-domotion-line-clamp-probe\", probeId);\n    marker.lineClampProbeId = probeId;\n    const context = { root: el, clampCount: activation.clampCount, writingMode, lines, marker };\n    contexts.set(el, context);\n    return context;\n  };\n  const nearestContext = (el) => {\n    for (let cursor = el; cursor != null; cursor = cursor.parentElement) {\n      const context = contexts.has(cursor) ? contexts.get(cursor) : analyzeRoot(cursor, getComputedStyle(cursor));\n      if (context != null) return context;\n    }\n    return null;\n  };\n  const segmentLineIndex = (segment, context) => {\n    const vertical = VERTICAL_WRITING_RE.test(context.writingMode);\n    const offset = vertical ? segment.x + vp.x : segment.y + vp.y;\n    let bestIndex = -1;\n    let bestDistance = Infinity;\n    for (let index = 0; index < context.lines.length; index++) {\n      const distance = Math.abs(context.lines[index].blockOffset - offset);\n      if (distance < bestDistance) {\n        bestDistance = distance;\n        bestIndex = index;\n      }\n    }\n    return bestDistance <= 1.5 ? bestIndex : -1;\n  };\n  const finalizeLineClampText = (el, cs, result) => {\n    analyzeRoot(el, cs);\n    const context = nearestContext(el);\n    if (context == null) return result;\n    const sourceSegments = result.textSegments || [];\n    const retained = sourceSegments.filter((segment) => {\n      if (segment.generatedLineClampEllipsis) return true;\n      const index = segmentLineIndex(segment, context);\n      return index < 0 || blinkLineClampLineIsVisible(index, context.clampCount);\n    });\n    if (el === context.root && blinkShouldEmitLineClampEllipsis({\n      active: true,\n      clampCount: context.clampCount,\n      totalLineCount: context.lines.length\n    })) retained.push(context.marker);\n    return {\n      ...result,\n      textSegments: retained,\n      lineClampTextFragments: true\n    };\n  };\n  return { finalizeLineClampText };\n};\n\n// src/capture/script/cross-origin.ts\nfunction parseCrossOriginAllowlist(value) {\n  if (value == null) return null;\n  const trimmed = value.trim();\n  if (trimmed === \"\") return null;\n  if (trimmed === \"*\") return \"*\";\n  const entries = [];\n  for (const raw of trimmed.split(\",\")) {\n    const part = raw.trim();\n    if (part === \"\") continue;\n    if (part === \"*\") return \"*\";\n    const colon = part.lastIndexOf(\":\");\n    if (colon > 0 && /^[0-9]+$/.test(part.slice(colon + 1))) {\n      entries.push({ host: part.slice(0, colon).toLowerCase(), port: part.slice(colon + 1) });\n    } else {\n      entries.push({ host: part.toLowerCase(), port: null });\n    }\n  }\n  return entries.length > 0 ? entries : null;\n}\nfunction frameHostAllowed(frameUrl, allow) {\n  if (allow == null) return false;\n  if (allow === \"*\") return true;\n  let host;\n  let port;\n  try {\n    const u = new URL(frameUrl);\n    host = u.hostname.toLowerCase();\n    port = u.port;\n    if (port === \"\") {\n      if (u.protocol === \"https:\") port = \"443\";\n      else if (u.protocol === \"http:\") port = \"80\";\n    }\n  } catch {\n    return false;\n  }\n  for (const entry of allow) {\n    if (entry.host !== host) continue;\n    if (entry.port == null) return true;\n    if (entry.port === port) return true;\n  }\n  return false;\n}\n\n// src/capture/projective-owner.ts\nfunction isAncestor(nodes, ancestor, descendant) {\n  let cursor = descendant;\n  while (cursor != null) {\n    if (cursor === ancestor) return true;\n    cursor = nodes[cursor]?.parent ?? null;\n  }\n  return false;\n}\nfunction selectProjectiveRasterOwnerIndexes(nodes) {\n  const candidates = /* @__PURE__ */ new Set();\n  for (let index = 0; index < nodes.length; index++) {\n    const node = nodes[index];\n    if (node == null || !node.nonAffine) continue;\n    let owner = index;\n    let parent = node.parent;\n    while (parent != null && nodes[parent]?.influenced === true) {\n      owner = parent;\n      parent = nodes[parent]?.parent ?? null;\n    }\n    const inlineSvgRoot = node.inlineSvgRoot;\n    if (inlineSvgRoot != null && isAncestor(nodes, inlineSvgRoot, owner)) {\n      owner = inlineSvgRoot;\n    }\n    candidates.add(owner);\n  }\n  return [...candidates].filter((candidate) => ![...candidates].some(\n    (other) => other !== candidate && isAncestor(nodes, other, candidate)\n  )).sort((a, b) => a - b);\n}\n\n// src/capture/effective-appearance.ts\nvar BACKGROUND_LONGHANDS = [\n  \"background-attachment\",\n  \"background-clip\",\n  \"background-color\",\n  \"background-image\",\n  \"background-origin\",\n  \"background-position-x\",\n  \"background-position-y\",\n  \"background-repeat\",\n  \"background-size\"\n];\nvar PHYSICAL_BORDER_LONGHANDS = [\n  \"border-top-color\",\n  \"border-right-color\",\n  \"border-bottom-color\",\n  \"border-left-color\",\n  \"border-top-style\",\n  \"border-right-style\",\n  \"border-bottom-style\",\n  \"border-left-style\",\n  \"border-top-width\",\n  \"border-right-width\",\n  \"border-bottom-width\",\n  \"border-left-width\",\n  \"border-top-left-radius\",\n  \"border-top-right-radius\",\n  \"border-bottom-right-radius\",\n  \"border-bottom-left-radius\",\n  \"border-image-source\",\n  \"border-image-slice\",\n  \"border-image-width\",\n  \"border-image-outset\",\n  \"border-image-repeat\"\n];\nvar BACKGROUND_SET = new Set(BACKGROUND_LONGHANDS);\nvar BORDER_SET = new Set(PHYSICAL_BORDER_LONGHANDS);\nfunction normalizedAppearance(value) {\n  const appearance = (value ?? \"auto\").trim().toLowerCase();\n  return appearance === \"\" ? \"auto\" : appearance;\n}\nfunction autoAppearanceForControl(control) {\n  const tag = control.tag.toLowerCase();\n  if (tag === \"button\") return \"button\";\n  if (tag === \"progress\") return \"progress-bar\";\n  if (tag === \"meter\") return \"meter\";\n  if (tag === \"textarea\") return \"textarea\";\n  if (tag === \"select\") {\n    const size = Number.isFinite(control.selectSize) ? Math.max(0, control.selectSize ?? 0) : 0;\n    const usesMenuList = control.multiple ? Boolean(control.selectHasSizeAttribute) && size === 1 : size <= 1;\n    return usesMenuList ? \"menulist\" : \"listbox\";\n  }\n  if (tag !== \"input\") return \"none\";\n  switch ((control.type ?? \"text\").toLowerCase()) {\n    case \"button\":\n    case \"reset\":\n    case \"submit\":\n      return \"push-button\";\n    case \"color\":\n      return \"square-button\";\n    case \"checkbox\":\n      return \"checkbox\";\n    case \"radio\":\n      return \"radio\";\n    case \"range\":\n      return \"slider-horizontal\";\n    case \"search\":\n      return \"searchfield\";\n    case \"file\":\n    case \"hidden\":\n    case \"image\":\n      return \"none\";\n    default:\n      return \"textfield\";\n  }\n}\nfunction appearanceNeedsAuthorStyleFacts(appearance) {\n  return (/* @__PURE__ */ new Set([\n    \"button\",\n    \"push-button\",\n    \"square-button\",\n    \"progress-bar\",\n    \"meter\",\n    \"menulist\",\n    \"searchfield\",\n    \"textarea\",\n    \"textfield\"\n  ])).has(appearance);\n}\nfunction elementTypeAdjustedAppearance(specified, control) {\n  const auto = autoAppearanceForControl(control);\n  if (specified === auto) return specified;\n  switch (specified) {\n    case \"none\":\n    case \"base\":\n    case \"base-select\":\n      return specified;\n    case \"auto\":\n    case \"checkbox\":\n    case \"radio\":\n    case \"push-button\":\n    case \"square-button\":\n    case \"inner-spin-button\":\n    case \"listbox\":\n    case \"menulist\":\n    case \"meter\":\n    case \"progress-bar\":\n    case \"slider-horizontal\":\n    case \"slider-thumb-horizontal\":\n    case \"searchfield\":\n    case \"searchfield-cancel-button\":\n    case \"textarea\":\n      return auto;\n    case \"button\":\n      return auto === \"push-button\" || auto === \"square-button\" ? specified : auto;\n    case \"menulist-button\":\n      return auto === \"menulist\" ? specified : auto;\n    case \"slider-vertical\":\n      return auto === \"slider-horizontal\" ? specified : auto;\n    case \"slider-thumb-vertical\":\n      return auto === \"slider-thumb-horizontal\" ? specified : auto;\n    case \"textfield\":\n      return control.tag.toLowerCase() === \"input\" && (control.type ?? \"text\").toLowerCase() === \"search\" ? specified : auto;\n    default:\n      return specified;\n  }\n}\nfunction effectiveAppearanceForControl(specifiedAppearance, control, facts, hasResolvedBoxShadow) {\n  const specified = normalizedAppearance(specifiedAppearance);\n  const appearance = elementTypeAdjustedAppearance(specified, control);\n  if (appearance === \"none\" || appearance === \"base\" || appearance === \"base-select\") {\n    return appearance;\n  }\n  if (!appearanceNeedsAuthorStyleFacts(appearance)) return appearance;\n  if (facts == null || !facts.available) return null;\n  const authorBox = facts.hasAuthorBackground || facts.hasAuthorBorder;\n  switch (appearance) {\n    case \"button\":\n    case \"push-button\":\n    case \"square-button\":\n    case \"progress-bar\":\n    case \"meter\":\n      return authorBox ? \"none\" : appearance;\n    case \"menulist\":\n      return authorBox || hasResolvedBoxShadow ? \"menulist-button\" : appearance;\n    case \"searchfield\":\n    case \"textarea\":\n    case \"textfield\":\n      return authorBox || hasResolvedBoxShadow ? \"none\" : appearance;\n    default:\n      return appearance;\n  }\n}\nfunction isWholeHostNativeAppearance(appearance) {\n  return (/* @__PURE__ */ new Set([\n    \"button\",\n    \"push-button\",\n    \"square-button\",\n    \"progress-bar\",\n    \"meter\",\n    \"menulist\",\n    \"searchfield\",\n    \"textarea\",\n    \"textfield\",\n    \"checkbox\",\n    \"radio\",\n    \"slider-horizontal\",\n    \"slider-vertical\"\n  ])).has(appearance);\n}\n\n// src/capture/native-control-decoration.ts\nvar TEMPORAL_INPUT_TYPES = /* @__PURE__ */ new Set([\n  \"date\",\n  \"datetime-local\",\n  \"month\",\n  \"time\",\n  \"week\"\n]);\nfunction nativeControlDecorationKinds(control, effectiveAppearance, fileSelectorButtonAppearance) {\n  const tag = control.tag.toLowerCase();\n  const type = (control.type ?? \"text\").toLowerCase();\n  if (tag === \"input\" && type === \"file\") {\n    if (fileSelectorButtonAppearance === \"none\" || fileSelectorButtonAppearance === \"base\" || fileSelectorButtonAppearance === \"base-select\") return [];\n    return [\"file-selector-button\"];\n  }\n  if (effectiveAppearance == null || isWholeHostNativeAppearance(effectiveAppearance)) return [];\n  if (effectiveAppearance === \"base\" || effectiveAppearance === \"base-select\") return [];\n  if (tag === \"select\") {\n    return effectiveAppearance === \"menulist-button\" ? [\"menulist-button-arrow\"] : [];\n  }\n  if (tag !== \"input\") return [];\n  if (type === \"number\") return [\"inner-spin-button\"];\n  if (type === \"search\") return [\"search-cancel-button\"];\n  if (TEMPORAL_INPUT_TYPES.has(type)) {\n    return [\"calendar-picker-indicator\"];\n  }\n  return [];\n}\n\n// src/capture/script/index.ts\nvar captureDocumentTree = (args, colorNorm) => {\n  const sel = args.sel;\n  const vp = args.vp;\n  const _crossOriginAllow = parseCrossOriginAllowlist(args.cof);\n  const _svgReferenceScopes = /* @__PURE__ */ new WeakMap();\n  let _nextSvgReferenceScope = 0;\n  function _svgReferenceScope(el) {\n    var root2 = el.getRootNode ? el.getRootNode() : el.ownerDocument;\n    var existing = _svgReferenceScopes.get(root2);\n    if (existing != null) return existing;\n    var allocated = _nextSvgReferenceScope++;\n    _svgReferenceScopes.set(root2, allocated);\n    return allocated;\n  }\n  let _backdropRasterSeq = 0;\n  function _textPaintRegistryFor(el) {\n    if (typeof args.tgk !== \"string\" || args.tgk === \"\") return void 0;\n    var view = el.ownerDocument != null ? el.ownerDocument.defaultView : void 0;\n    return view != null ? view[args.tgk] : void 0;\n  }\n  function _textPaintElementIndexFor(el) {\n    var registry = _textPaintRegistryFor(el);\n    return registry != null && registry.indexByElement != null ? registry.indexByElement.get(el) : void 0;\n  }\n  function _textPaintFactFor(el) {\n    var registry = _textPaintRegistryFor(el);\n    var index = _textPaintElementIndexFor(el);\n    return registry != null && index != null && registry.factsByElement != null ? registry.factsByElement[index] : void 0;\n  }\n  function _textPaintSourceKeyFor(el) {\n    var registry = _textPaintRegistryFor(el);\n    var index = _textPaintElementIndexFor(el);\n    return registry != null && index != null ? registry.token + \":\" + index : void 0;\n  }\n  function _pseudoFragmentFactsFor(el) {\n    if (typeof args.pgk !== \"string\" || args.pgk === \"\") return void 0;\n    var view = el.ownerDocument != null ? el.ownerDocument.defaultView : void 0;\n    var registry = view != null ? view[args.pgk] : void 0;\n    var index = registry != null && registry.indexByElement != null ? registry.indexByElement.get(el) : void 0;\n    return registry != null && index != null && registry.factsByElement != null ? registry.factsByElement[index] : void 0;\n  }\n  const { normColor, normGradientColors } = colorNorm;\n  const { rasterCandidates, textNeedsRaster } = createEmojiDetect();\n  const { markGetsDottedCircle } = createDottedCircleDetect();\n  const { measureFontMetrics: _measureFontMetrics, substituteAliasedFamilies: _substituteAliasedFamilies } = createFontMetrics();\n  const { resolvePlaceholderShownBg: _resolvePlaceholderShownBg } = createPlaceholderShown();\n  const { familyIsUADefault: _familyIsUADefault } = createFontFamilyDefault();\n  const _fontFeatureValuesByDocument = /* @__PURE__ */ new WeakMap();\n  const _fontFeatureValuesFor = (doc) => {\n    let tables = _fontFeatureValuesByDocument.get(doc);\n    if (tables == null) {\n      tables = collectFontFeatureValues(doc);\n      _fontFeatureValuesByDocument.set(doc, tables);\n    }\n    return tables;\n  };\n  const { resolvePseudo: _resolvePseudo, resolveCornerRadius: _resolveCornerRadius } = createPseudoRules(args.ps, args.pk);\n  const { warn, shortSelector, warnings: _warnings } = createWarnings();\n  const _counterStyles = {};\n  const _runCounterStylePrewalk = createCounterStylePrewalk({ counterStyles: _counterStyles });\n  const { resolveCounterStyle, resolveCounterValue, isCustomCounterStyle } = createCounterStyleResolver({ counterStyles: _counterStyles });\n  const { captureListsCounters } = createListsCountersHandler({ normColor, resolveCounterStyle, isCustomCounterStyle, measureFontMetrics: _measureFontMetrics });\n  const { handleReplacedElement } = createReplacedElementsHandler({ vp });\n  const { discoverMasks, computeMaskIntrinsic, discoverClipPaths, discoverFilters, maskDefs: _maskDefs, maskRasters: _maskRasters, clipPathDefs: _clipPathDefs, filterDefs: _filterDefs } = createMasksClipsHandler({ vp, warn });\n  const { captureFormControls } = createFormControlsHandler({ normColor, resolvePseudo: _resolvePseudo });\n  const { wrapWithFrozenTransform, threadFrozenTransform } = createTransformsHandler();\n  const { captureBordersBackgrounds, isTableCellHiddenByEmptyCells } = createBordersBackgroundsHandler({\n    normColor,\n    normGradientColors,\n    resolvePlaceholderShownBg: _resolvePlaceholderShownBg,\n    resolveCornerRadius: _resolveCornerRadius,\n    effectiveZoomFor: (el) => _effectiveZoomFor(el),\n    warn,\n    shortSelector,\n    vp\n  });\n  const { captureBackgroundAttachment } = createBackgroundAttachmentHandler({\n    vp,\n    transformRelatedBoxFor: (el) => _transformRelatedBox.get(el),\n    effectiveZoomFor: (el) => _effectiveZoomFor(el),\n    scrollbarPropertyKey: args.sk\n  });\n  const { capturePseudoContent } = createPseudoContentHandler({\n    vp,\n    normColor,\n    measureFontMetrics: _measureFontMetrics,\n    textNeedsRaster,\n    resolveCounterValue,\n    isCustomCounterStyle,\n    composeEffectiveTransform,\n    effectiveZoomFor: (el) => _effectiveZoomFor(el),\n    physicalComputedCssPixelTerms: physicalComputedTileSize\n  });\n  const { captureInputValue } = createInputValueHandler({ vp, normColor, measureFontMetrics: _measureFontMetrics });\n  const { finalizeLineClampText } = createLineClampHandler({\n    vp,\n    measureFontMetrics: _measureFontMetrics,\n    normColor,\n    effectiveZoomFor: (el) => _effectiveZoomFor(el)\n  });\n  const { captureTextSegments } = createTextSegmentsHandler({\n    vp,\n    measureFontMetrics: _measureFontMetrics,\n    rasterCandidates,\n    normColor,\n    markGetsDottedCircle,\n    finalizeLineClampText\n  });\n  const { injectPseudoSegments } = createPseudoInjectHandler();\n  const { captureResizeHandle } = createResizeHandleHandler({\n    resolvePseudo: _resolvePseudo,\n    normColor,\n    effectiveZoomFor: (el) => _effectiveZoomFor(el),\n    themeThickness: args.rt,\n    scaleFromDIP: args.rs,\n    vp\n  });\n  const capture = (el) => {\n    const styleWindow = el.ownerDocument?.defaultView ?? window;\n    const cs = styleWindow.getComputedStyle(el);\n    return wrapWithFrozenTransform(el, cs, captureInner);\n  };\n  const captureInner = (el, cs, frozenTransform, frozenTransformOrigin) => {\n    const rect = el.getBoundingClientRect();\n    const _textPaintFact = _textPaintFactFor(el);\n    const _pseudoFragmentFacts = _pseudoFragmentFactsFor(el);\n    let projectiveTransform;\n    let projectiveHidden;\n    let transformSubtreeRaster;\n    const _quad = _projectedQuads.get(el);\n    if (_quad != null && rect.width > 0 && rect.height > 0) {\n      const _abs = _homographyForRect(rect, _quad);\n      if (_abs != null) {\n        const _parentAbs = el.parentElement != null ? _projectiveAbsH.get(el.parentElement) : void 0;\n        const _parentInv = _parentAbs != null ? _invertH(_parentAbs) : null;\n        projectiveTransform = _parentInv != null ? _mulH(_parentInv, _abs) : _abs;\n        _projectiveAbsH.set(el, _abs);\n        const _area = (_quad[1].x - _quad[0].x) * (_quad[3].y - _quad[0].y) - (_quad[1].y - _quad[0].y) * (_quad[3].x - _quad[0].x);\n        projectiveHidden = cs.backfaceVisibility === \"hidden\" && _area < 0;\n      }\n    }\n    const _makeTransformSubtreeRaster = () => {\n      let _left = rect.left, _top = rect.top, _right = rect.right, _bottom = rect.bottom;\n      const _subs = el.getElementsByTagName(\"*\");\n      for (let _ri = 0; _ri < _subs.length; _ri++) {\n        const _rr = _subs[_ri].getBoundingClientRect();\n        if (_rr.width <= 0 || _rr.height <= 0) continue;\n        _left = Math.min(_left, _rr.left);\n        _top = Math.min(_top, _rr.top);\n        _right = Math.max(_right, _rr.right);\n        _bottom = Math.max(_bottom, _rr.bottom);\n      }\n      const _rx = Math.max(vp.x, _left), _ry = Math.max(vp.y, _top);\n      const _rright = Math.min(vp.x + vp.width, _right), _rbottom = Math.min(vp.y + vp.height, _bottom);\n      if (_rright > _rx && _rbottom > _ry) {\n        return {\n          x: _rx - vp.x,\n          y: _ry - vp.y,\n          width: _rright - _rx,\n          height: _rbottom - _ry,\n          sourceNodeIndex: _projectiveNodeIndex.get(el)\n        };\n      }\n      return { x: 0, y: 0, width: 0, height: 0, sourceNodeIndex: _projectiveNodeIndex.get(el) };\n    };\n    if (_nonAffineProjectiveRoots.has(el)) {\n      transformSubtreeRaster = _makeTransformSubtreeRaster();\n    }\n    if (_textPaintFact != null && _textPaintFact.surfaceReason != null && transformSubtreeRaster == null) {\n      transformSubtreeRaster = _makeTransformSubtreeRaster();\n      warn(shortSelector(el), \"<transform>\", \"Chromium text-fragment geometry unavailable; retained one outer raster surface: \" + _textPaintFact.surfaceReason);\n    }\n    const outsideViewport = isOutsideCaptureViewport(rect, vp);\n    if (outsideViewport && !_fixedAncestors.has(el) && !_transformInfluenced.has(el) && !_animInfluenced.has(el)) return null;\n    const _earlyTag = el.tagName.toLowerCase();\n    const bordersOnlyCell = (_earlyTag === \"td\" || _earlyTag === \"th\") && (cs.visibility === \"hidden\" || cs.visibility === \"collapse\") && cs.borderCollapse === \"collapse\";\n    if (cs.display === \"none\") return null;\n    if ((cs.visibility === \"hidden\" || cs.visibility === \"collapse\") && !bordersOnlyCell) return null;\n    const _contentVisHidden = cs.contentVisibility === \"hidden\";\n    const _clip = cs.clip || \"\";\n    if (_clip !== \"auto\" && _clip !== \"\" && _clip !== \"normal\") {\n      const _cm = _clip.match(/rect\\(\\s*([^,\\s]+)[ ,]+([^,\\s]+)[ ,]+([^,\\s]+)[ ,]+([^)\\s]+)\\s*\\)/);\n      if (_cm != null && parseFloat(_cm[1]) === 0 && parseFloat(_cm[2]) === 0 && parseFloat(_cm[3]) === 0 && parseFloat(_cm[4]) === 0) {\n        return null;\n      }\n    }\n    const _cp = cs.clipPath || \"\";\n    if (_cp.indexOf(\"inset(\") === 0) {\n      const _ipm = _cp.match(/inset\\(\\s*([0-9.]+)\\s*%/);\n      if (_ipm != null && parseFloat(_ipm[1]) >= 50) return null;\n    }\n    if (rect.width <= 1 && rect.height <= 1 && (cs.overflow === \"hidden\" || cs.overflowX === \"hidden\" || cs.overflowY === \"hidden\") && (cs.position === \"absolute\" || cs.position === \"fixed\")) {\n      return null;\n    }\n    const zeroSized = rect.width === 0 || rect.height === 0;\n    const _hasAnim = el.dataset != null && el.dataset.domotionAnim != null && el.dataset.domotionAnim !== \"\";\n    const _inkTextZeroWidth = rect.width === 0 && rect.height > 0 && el.textContent != null && el.textContent.trim().length > 0;\n    const _keepImageFallbackState = el.tagName != null && el.tagName.toLowerCase() === \"img\";\n    if (zeroSized && el.children.length === 0 && !_hasAnim && !_inkTextZeroWidth && !_keepImageFallbackState) return null;\n    const tag = el.tagName.toLowerCase();\n    const sel2 = shortSelector(el);\n    const _nativeControlTag = tag === \"input\" || tag === \"select\" || tag === \"textarea\" || tag === \"button\" || tag === \"progress\" || tag === \"meter\";\n    const _specifiedAppearance = cs.webkitAppearance || cs.appearance || \"auto\";\n    const _autoAppearanceDescriptor = {\n      tag,\n      type: tag === \"input\" ? el.type || \"text\" : void 0,\n      multiple: tag === \"select\" ? !!el.multiple : void 0,\n      selectSize: tag === \"select\" ? +el.size : void 0,\n      selectHasSizeAttribute: tag === \"select\" ? el.hasAttribute(\"size\") : void 0\n    };\n    const _appearanceFacts = typeof args.eak === \"string\" && args.eak !== \"\" ? el[args.eak] : void 0;\n    const _effectiveAppearance = _nativeControlTag ? effectiveAppearanceForControl(\n      _specifiedAppearance,\n      _autoAppearanceDescriptor,\n      _appearanceFacts,\n      cs.boxShadow != null && cs.boxShadow !== \"\" && cs.boxShadow !== \"none\"\n    ) : \"none\";\n    const _nativeDecorationRefs = typeof args.ndk === \"string\" && args.ndk !== \"\" && Array.isArray(el[args.ndk]) ? el[args.ndk] : [];\n    let _fileSelectorButtonAppearance;\n    for (let _fri = 0; _fri < _nativeDecorationRefs.length; _fri++) {\n      const _fileRef = _nativeDecorationRefs[_fri];\n      if (_fileRef == null || _fileRef.kind !== \"file-selector-button\") continue;\n      _fileSelectorButtonAppearance = _fileRef.ownership == null ? null : _fileRef.ownership.effectiveAppearance;\n      break;\n    }\n    const _nativeDecorationKinds = _nativeControlTag ? nativeControlDecorationKinds(\n      _autoAppearanceDescriptor,\n      _effectiveAppearance,\n      tag === \"input\" && el.type === \"file\" ? _fileSelectorButtonAppearance : void 0\n    ) : [];\n    const _nativeDecorationParts = [];\n    const _missingNativeDecorationKinds = [];\n    let _nativeDecorationUnavailableReason;\n    for (let _dki = 0; _dki < _nativeDecorationKinds.length; _dki++) {\n      const _kind = _nativeDecorationKinds[_dki];\n      if (_kind === \"menulist-button-arrow\") continue;\n      let _found = false;\n      for (let _dri = 0; _dri < _nativeDecorationRefs.length; _dri++) {\n        const _entry = _nativeDecorationRefs[_dri];\n        if (_entry == null || _entry.kind !== _kind || !(_entry.node instanceof Element)) continue;\n        _found = true;\n        if (_kind === \"file-selector-button\" && (_entry.ownership == null || _entry.ownership.effectiveAppearance == null)) {\n          _nativeDecorationUnavailableReason = _entry.ownership && _entry.ownership.reason ? _entry.ownership.reason : \"file-selector child EffectiveAppearance unavailable\";\n        }\n        const _part = _entry.node;\n        const _partStyle = getComputedStyle(_part);\n        const _partRect = _part.getBoundingClientRect();\n        const _partOpacity = parseFloat(_partStyle.opacity);\n        if (_part.isConnected && _partStyle.display !== \"none\" && _partStyle.visibility === \"visible\" && (!isFinite(_partOpacity) || _partOpacity > 0) && _partRect.width > 0 && _partRect.height > 0) {\n          _nativeDecorationParts.push({\n            kind: _kind,\n            index: _dri,\n            x: _partRect.left,\n            y: _partRect.top,\n            width: _partRect.width,\n            height: _partRect.height\n          });\n        }\n      }\n      if (!_found) _missingNativeDecorationKinds.push(_kind);\n    }\n    if (_nativeDecorationKinds.indexOf(\"file-selector-button\") >= 0) {\n      let _fileStatusFound = false;\n      for (let _dri = 0; _dri < _nativeDecorationRefs.length; _dri++) {\n        const _entry = _nativeDecorationRefs[_dri];\n        if (_entry == null || _entry.kind !== \"file-selector-status\" || !(_entry.node instanceof Element)) continue;\n        _fileStatusFound = true;\n        const _statusRect = _entry.node.getBoundingClientRect();\n        if (_entry.node.isConnected && _statusRect.width >= 0 && _statusRect.height >= 0) {\n          _nativeDecorationParts.push({\n            kind: \"file-selector-status\",\n            index: _dri,\n            x: _statusRect.left,\n            y: _statusRect.top,\n            width: _statusRect.width,\n            height: _statusRect.height\n          });\n        }\n      }\n      if (!_fileStatusFound) _missingNativeDecorationKinds.push(\"file-selector-status\");\n    }\n    if (_nativeDecorationKinds.indexOf(\"menulist-button-arrow\") >= 0) {\n      let _selectInnerFound = false;\n      for (let _dri = 0; _dri < _nativeDecorationRefs.length; _dri++) {\n        const _entry = _nativeDecorationRefs[_dri];\n        if (_entry == null || _entry.kind !== \"select-inner\" || !(_entry.node instanceof Element)) continue;\n        _selectInnerFound = true;\n        const _partRect = _entry.node.getBoundingClientRect();\n        if (_entry.node.isConnected && _partRect.width >= 0 && _partRect.height >= 0) {\n          _nativeDecorationParts.push({\n            kind: \"select-inner\",\n            index: _dri,\n            x: _partRect.left,\n            y: _partRect.top,\n            width: _partRect.width,\n            height: _partRect.height\n          });\n        }\n      }\n      if (!_selectInnerFound) _missingNativeDecorationKinds.push(\"select-inner\");\n    }\n    let _fileSelectorCapture;\n    if (tag === \"input\" && el.type === \"file\") {\n      let _buttonNode;\n      let _statusNode;\n      for (let _fri = 0; _fri < _nativeDecorationRefs.length; _fri++) {\n        const _entry = _nativeDecorationRefs[_fri];\n        if (_entry == null || !(_entry.node instanceof Element)) continue;\n        if (_entry.kind === \"file-selector-button\") _buttonNode = _entry.node;\n        else if (_entry.kind === \"file-selector-status\") _statusNode = _entry.node;\n      }\n      const _paintScale = _effectiveZoomFor(el);\n      const _buttonRect = _buttonNode && _buttonNode.getBoundingClientRect();\n      const _buttonStyle = _buttonNode && getComputedStyle(_buttonNode);\n      const _buttonMetrics = _buttonStyle && _measureFontMetrics(_buttonStyle);\n      let _buttonTextWidth = 0;\n      if (_buttonNode && _buttonStyle) {\n        try {\n          const _buttonCanvas = document.createElement(\"canvas\");\n          const _buttonCtx = _buttonCanvas.getContext(\"2d\");\n          if (_buttonCtx) {\n            _buttonCtx.font = _buttonStyle.font;\n            _buttonTextWidth = _buttonCtx.measureText(\n              _buttonNode.value || _buttonNode.getAttribute(\"value\") || \"\"\n            ).width * _paintScale;\n          }\n        } catch (_e) {\n        }\n      }\n      const _statusRect = _statusNode && _statusNode.getBoundingClientRect();\n      const _statusStyle = _statusNode && getComputedStyle(_statusNode);\n      const _statusText = _statusNode && captureTextSegments(_statusNode, _statusStyle);\n      if (_statusText && Array.isArray(_statusText.textSegments)) {\n        for (let _fsi = 0; _fsi < _statusText.textSegments.length; _fsi++) {\n          const _seg = _statusText.textSegments[_fsi];\n          if (_seg.fontAscent != null) _seg.fontAscent *= _paintScale;\n          if (_seg.fontDescent != null) _seg.fontDescent *= _paintScale;\n          if (_seg.fontSize != null) _seg.fontSize *= _paintScale;\n          if (Array.isArray(_seg.verticalNaturalWidths)) {\n            _seg.verticalNaturalWidths = _seg.verticalNaturalWidths.map((_width) => _width * _paintScale);\n          }\n        }\n      }\n      _fileSelectorCapture = {\n        fileSelectorButton: _buttonRect && _buttonStyle && _buttonMetrics ? {\n          x: _buttonRect.left - vp.x,\n          y: _buttonRect.top - vp.y,\n          width: _buttonRect.width,\n          height: _buttonRect.height,\n          text: _buttonNode.value || _buttonNode.getAttribute(\"value\") || \"\",\n          textWidth: _buttonTextWidth,\n          fontSize: (parseFloat(_buttonStyle.fontSize) || 0) * _paintScale,\n          fontFamily: _buttonStyle.fontFamily,\n          fontWeight: _buttonStyle.fontWeight,\n          fontStyle: _buttonStyle.fontStyle,\n          fontAscent: _buttonMetrics.ascent * _paintScale,\n          fontDescent: _buttonMetrics.descent * _paintScale,\n          color: normColor(_buttonStyle.color),\n          boxShadow: _buttonStyle.boxShadow,\n          borderRadius: _buttonStyle.borderRadius,\n          writingMode: _buttonStyle.writingMode,\n          textOrientation: _buttonStyle.textOrientation,\n          direction: _buttonStyle.direction\n        } : void 0,\n        fileSelectorStatus: _statusRect && _statusStyle && _statusText ? {\n          x: _statusRect.left - vp.x,\n          y: _statusRect.top - vp.y,\n          width: _statusRect.width,\n          height: _statusRect.height,\n          text: _statusText.text || _statusNode.textContent || \"\",\n          textSegments: _statusText.textSegments,\n          fontSize: (parseFloat(_statusStyle.fontSize) || 0) * _paintScale,\n          fontFamily: _statusStyle.fontFamily,\n          fontWeight: _statusStyle.fontWeight,\n          fontStyle: _statusStyle.fontStyle,\n          fontAscent: (_statusText.fontAscent || 0) * _paintScale,\n          fontDescent: (_statusText.fontDescent || 0) * _paintScale,\n          color: normColor(_statusStyle.color),\n          writingMode: _statusStyle.writingMode,\n          textOrientation: _statusStyle.textOrientation,\n          direction: _statusStyle.direction\n        } : void 0\n      };\n    }\n    if (_nativeControlTag && _effectiveAppearance == null) {\n      const _autoAppearance = _specifiedAppearance === \"auto\" ? autoAppearanceForControl(_autoAppearanceDescriptor) : _specifiedAppearance;\n      if (appearanceNeedsAuthorStyleFacts(_autoAppearance)) {\n        const _reason = _appearanceFacts && _appearanceFacts.reason ? _appearanceFacts.reason : args.ear || \"no correlated Chromium matched-style facts\";\n        warn(\n          sel2,\n          \"effective-appearance-cascade\",\n          \"author background/border origin unavailable (\" + _reason + \"); preserving a conservative Chromium host raster\"\n        );\n      }\n    }\n    if (cs.transform && cs.transform.startsWith(\"matrix3d\")) {\n      warn(sel2, \"transform-3d\", \"static 3D plane projected to vector SVG from Chromium-measured corners\");\n    }\n    if (cs.backdropFilter && cs.backdropFilter !== \"none\") {\n      warn(sel2, \"backdrop-filter\", \"approximated via a frosted-glass background fallback for the transparent-backdrop case (doc 19); no true backdrop blur\");\n    }\n    if (cs.position === \"fixed\" || cs.position === \"sticky\") {\n      warn(sel2, \"position:\" + cs.position, \"rendered as a static snapshot at t=0; scroll-following behavior is not animated\");\n    }\n    discoverMasks(el, cs, sel2);\n    discoverClipPaths(el, cs, sel2);\n    const urlFilterRasterToken = discoverFilters(el, cs, sel2);\n    if (cs.borderImageSource && cs.borderImageSource !== \"none\") {\n      warn(sel2, \"border-image\", \"9-slice composition pending (SK-466); border-image-source ignored\");\n    }\n    if (tag === \"canvas\" || tag === \"video\" || tag === \"object\" || tag === \"embed\") {\n      warn(sel2, \"<\" + tag + \">\", \"element type is not rendered by domotion\");\n    } else if (tag === \"iframe\") {\n      if (_iframeIsRecursable(el) == null) {\n        warn(sel2, \"<iframe>\", \"cross-origin / inaccessible frame rendered as a static raster snapshot; same-origin frames recurse to native SVG\");\n      }\n    }\n    if (cs.textAlign === \"justify\") {\n      warn(sel2, \"text-align:justify\", \"path-mode renderer does not space-stretch justified text\");\n    }\n    let text = \"\";\n    let imageSrc = void 0;\n    let svgContent = void 0;\n    let textTop = 0;\n    let textLeft = 0;\n    let textHeight = 0;\n    let textWidth = 0;\n    let fontAscent = 0;\n    let fontDescent = 0;\n    let inputXOffsets;\n    let placeholderColor;\n    let placeholderFontStyle;\n    let placeholderFontWeight;\n    let lineClampTextFragments = false;\n    const textSegments = [];\n    const _pcResult = _contentVisHidden || Array.isArray(_pseudoFragmentFacts) ? { pseudoSegments: [], pseudoBoxes: [] } : capturePseudoContent(el, cs, rect, _counterSnapshot);\n    const pseudoSegments = _pcResult.pseudoSegments;\n    const pseudoBoxes = _pcResult.pseudoBoxes;\n    const textIsHiddenFallback = tag === \"meter\" || tag === \"progress\" || tag === \"datalist\" || tag === \"option\" || tag === \"optgroup\";\n    if (tag !== \"svg\" && tag !== \"img\" && !textIsHiddenFallback && !_contentVisHidden) {\n      const _iv = captureInputValue(el, cs, tag, rect);\n      var isPlaceholderCapture = false;\n      if (_iv.applied) {\n        text = _iv.text;\n        textLeft = _iv.textLeft;\n        textTop = _iv.textTop;\n        textHeight = _iv.textHeight;\n        textWidth = _iv.textWidth;\n        fontAscent = _iv.fontAscent;\n        fontDescent = _iv.fontDescent;\n        inputXOffsets = _iv.inputXOffsets;\n        if (_iv.textSegments != null) for (const seg of _iv.textSegments) textSegments.push(seg);\n        isPlaceholderCapture = _iv.isPlaceholderCapture;\n        placeholderColor = _iv.placeholderColor;\n        placeholderFontStyle = _iv.placeholderFontStyle;\n        placeholderFontWeight = _iv.placeholderFontWeight;\n      } else {\n        const _ts = captureTextSegments(el, cs);\n        text = _ts.text;\n        lineClampTextFragments = _ts.lineClampTextFragments === true;\n        for (const seg of _ts.textSegments) textSegments.push(seg);\n        if (_ts.textLeft != null) {\n          textLeft = _ts.textLeft;\n          textTop = _ts.textTop;\n          textWidth = _ts.textWidth;\n          textHeight = _ts.textHeight;\n          fontAscent = _ts.fontAscent;\n          fontDescent = _ts.fontDescent;\n        }\n      }\n    }\n    const _pi = Array.isArray(_pseudoFragmentFacts) ? { pseudoImages: [], text, textLeft, textTop, textWidth, textHeight, fontAscent } : injectPseudoSegments(el, pseudoSegments, textSegments, {\n      text,\n      textLeft,\n      textTop,\n      textWidth,\n      textHeight,\n      fontAscent\n    });\n    const pseudoImages = _pi.pseudoImages;\n    text = _pi.text;\n    textLeft = _pi.textLeft;\n    textTop = _pi.textTop;\n    textWidth = _pi.textWidth;\n    textHeight = _pi.textHeight;\n    fontAscent = _pi.fontAscent;\n    var _segmentZoom = _effectiveZoomFor(el);\n    for (const _seg of textSegments) {\n      var _segLogicalSize = _seg.fontSize ?? parseFloat(cs.fontSize);\n      if (!isFinite(_segLogicalSize) || _segLogicalSize <= 0) continue;\n      var _segMetricStyle = {\n        fontStyle: _seg.fontStyle ?? cs.fontStyle,\n        fontWeight: _seg.fontWeight ?? cs.fontWeight,\n        fontSize: _segLogicalSize + \"px\",\n        fontFamily: _seg.fontFamily ?? cs.fontFamily\n      };\n      var _segLogicalMetrics = _measureFontMetrics(_segMetricStyle);\n      var _segComputedMetrics = _measureFontMetrics(_segMetricStyle, (_segLogicalSize * _segmentZoom).toFixed(4) + \"px\");\n      if (_seg.fontAscent === _segLogicalMetrics.ascent) _seg.fontAscent = _segComputedMetrics.ascent;\n      if (_seg.fontDescent === _segLogicalMetrics.descent) _seg.fontDescent = _segComputedMetrics.descent;\n      if (_seg.fontSize != null) _seg.fontSize = _segLogicalSize * _segmentZoom;\n    }\n    let textImageUri = void 0;\n    const textImageScale = 2;\n    if (tag === \"img\") {\n      imageSrc = el.currentSrc || el.src;\n      if (el.naturalWidth > 0 && el.naturalHeight > 0) {\n        var imageIntrinsic = { w: el.naturalWidth, h: el.naturalHeight };\n      }\n      var imageBroken = el.complete && el.naturalWidth === 0;\n      var imageAlt = el.alt || \"\";\n      var _imageHasSrc = el.hasAttribute(\"src\");\n      var _imageHasAlt = el.hasAttribute(\"alt\");\n      var _imageHasTitle = el.hasAttribute(\"title\");\n      var brokenImageFallback = {\n        schemaVersion: 1,\n        authority: \"chromium-ua-shadow-v1\",\n        sourceNodeIndex: _projectiveNodeIndex.get(el),\n        selector: sel2,\n        effectiveZoom: _effectiveZoomFor(el),\n        hostRect: {\n          x: rect.left - vp.x,\n          y: rect.top - vp.y,\n          width: rect.width,\n          height: rect.height\n        },\n        source: {\n          complete: el.complete === true,\n          naturalWidth: Number(el.naturalWidth) || 0,\n          naturalHeight: Number(el.naturalHeight) || 0,\n          currentSrc: el.currentSrc || \"\",\n          src: { present: _imageHasSrc, value: _imageHasSrc ? el.getAttribute(\"src\") : null },\n          alt: { present: _imageHasAlt, value: _imageHasAlt ? el.getAttribute(\"alt\") : null },\n          title: { present: _imageHasTitle, value: _imageHasTitle ? el.getAttribute(\"title\") : null },\n          // Blink HTMLImageElement::AltText: a present alt wins even when it\n          // is empty; title is consulted only when alt is absent.\n          resolvedText: _imageHasAlt ? el.getAttribute(\"alt\") || \"\" : _imageHasTitle ? el.getAttribute(\"title\") || \"\" : \"\"\n        }\n      };\n    } else if (tag === \"input\" && el.type === \"image\") {\n      imageSrc = el.src;\n    }\n    const _listsCounters = captureListsCounters(el, cs, tag);\n    let svgReferenceScope = void 0;\n    if (tag === \"svg\") {\n      const inlineSvgCapture = captureInlineSvg(el, cs, warn, sel2);\n      svgContent = inlineSvgCapture.content;\n      if (inlineSvgCapture.affineFreezeFailed && transformSubtreeRaster == null) {\n        transformSubtreeRaster = _makeTransformSubtreeRaster();\n      }\n      svgReferenceScope = _svgReferenceScope(el);\n    }\n    const children = [];\n    if (_contentVisHidden) {\n    } else\n      for (const child of el.children) {\n        if (tag === \"details\" && !el.open && child.tagName.toLowerCase() !== \"summary\") continue;\n        if (tag === \"select\" && (child.tagName.toLowerCase() === \"option\" || child.tagName.toLowerCase() === \"optgroup\")) continue;\n        const c = capture(child);\n        if (c) {\n          const _grp = c.scrollMarkerGroup;\n          const _before = c._scrollMarkerGroupBefore;\n          delete c.scrollMarkerGroup;\n          delete c._scrollMarkerGroupBefore;\n          const _btns = c.scrollButtons;\n          delete c.scrollButtons;\n          if (_grp && _before) children.push(_grp);\n          children.push(c);\n          if (_grp && !_before) children.push(_grp);\n          if (_btns) for (let _bi = 0; _bi < _btns.length; _bi++) children.push(_btns[_bi]);\n        }\n      }\n    const _animId = el.dataset != null ? el.dataset.domotionAnim : void 0;\n    const _magicKey = el.dataset != null ? el.dataset.magicKey : void 0;\n    const _fsBox = computeFieldsetLegendBox(el, tag, rect, vp);\n    const _captured = {\n      tag,\n      text,\n      x: _fsBox.x,\n      y: _fsBox.y,\n      width: _fsBox.width,\n      height: _fsBox.height,\n      fieldsetLegendNotch: _fsBox.fieldsetLegendNotch,\n      resizeHandle: captureResizeHandle(el, cs, tag, rect),\n      // DM-2481: populated by the Node-side live Chromium marker probe.  The\n      // serialized record is already in capture-viewport coordinates and may\n      // be explicitly partial/unavailable; the renderer must never infer a\n      // replacement from scrollWidth/clientWidth or scroll offsets.\n      scrollbars: (function() {\n        const _record = typeof args.sk === \"string\" && args.sk !== \"\" ? el[args.sk] : void 0;\n        if (_record == null && (cs.overflowX === \"auto\" || cs.overflowX === \"scroll\" || cs.overflowY === \"auto\" || cs.overflowY === \"scroll\")) {\n          warn(sel2, \"scrollbar-capture\", \"live Chromium scrollbar probe did not correlate this scroll host; legacy synthesis is disabled\");\n        }\n        return _record;\n      })(),\n      animId: _animId,\n      magicKey: _magicKey,\n      // DM-2457: private correlation only. The Node/CDP post-pass resolves the\n      // real generated ::marker fragment and deletes this index before return.\n      _summaryMarkerSourceNodeIndex: tag === \"summary\" && cs.display != null && cs.display.includes(\"list-item\") ? _projectiveNodeIndex.get(el) : void 0,\n      svgReferenceScope,\n      // DM-1106: effective cursor keyword for the auto cursor-overlay hit-test.\n      // Omitted when it resolves to the default arrow (the common case) to keep\n      // the tree lean — the overlay treats a missing value as `default`.\n      cursor: (() => {\n        const _c = resolveElementCursor(el, cs);\n        return _c === \"default\" ? void 0 : _c;\n      })(),\n      styles: {\n        // Border + background + outline + box-shadow fields — see\n        // walker/borders-backgrounds.ts. Includes the\n        // backgroundColor placeholder-shown fallback (DM-283), %-resolved\n        // corner radii (SK-1093), per-side color-input border tint\n        // workaround (DM-434), frosted-bg fallback (DM-476), per-layer\n        // background-image intrinsic dims (DM-308), and border-image\n        // intrinsic dims.\n        ...captureBordersBackgrounds(el, cs, tag, rect, isPlaceholderCapture, _effectiveZoomFor(el)),\n        backgroundAttachmentGeometry: (function() {\n          const _scale = _backgroundAttachmentPaintScaleFor(el);\n          return captureBackgroundAttachment(el, cs, rect, _scale[0], _scale[1]);\n        })(),\n        overflowX: cs.overflowX,\n        overflowY: cs.overflowY,\n        // DM-761: `overflow-clip-margin` extends the overflow clip outward\n        // from a reference box (content / padding / border) by a length.\n        // Blink serializes computed lengths before effective CSS zoom while\n        // DOMRects are already physical. Cross that boundary once here; the\n        // reference-box keyword is retained byte-for-byte.\n        overflowClipMargin: cs.overflowClipMargin ? physicalComputedTileSize(cs.overflowClipMargin, _effectiveZoomFor(el)) : void 0,\n        scrollbarGutter: cs.scrollbarGutter || \"auto\",\n        scrollWidth: el.scrollWidth,\n        scrollHeight: el.scrollHeight,\n        clientWidth: el.clientWidth,\n        clientHeight: el.clientHeight,\n        scrollTop: el.scrollTop,\n        scrollLeft: el.scrollLeft,\n        objectFit: cs.objectFit,\n        objectPosition: cs.objectPosition,\n        filter: cs.filter,\n        backdropFilter: cs.backdropFilter || cs.webkitBackdropFilter || \"\",\n        mixBlendMode: cs.mixBlendMode,\n        clipPath: cs.clipPath,\n        mask: cs.mask || cs.webkitMask || \"\",\n        maskImage: cs.maskImage || cs.webkitMaskImage || \"\",\n        maskMode: cs.maskMode || \"match-source\",\n        // Computed mask lengths are exposed before effective zoom, while the\n        // captured positioning rect is already in painted coordinates. Cross\n        // that boundary once; percentages stay unresolved until Blink's\n        // contain/cover tile has established the free space (DM-2379).\n        maskSize: physicalComputedTileSize(cs.maskSize || cs.webkitMaskSize || \"auto\", _effectiveZoomFor(el)),\n        maskPosition: physicalComputedTileSize(cs.maskPosition || cs.webkitMaskPosition || \"0% 0%\", _effectiveZoomFor(el)),\n        maskRepeat: cs.maskRepeat || cs.webkitMaskRepeat || \"repeat\",\n        maskComposite: cs.maskComposite || cs.webkitMaskComposite || \"add\",\n        maskIntrinsic: computeMaskIntrinsic(el, cs),\n        maskOrigin: cs.maskOrigin || cs.webkitMaskOrigin || \"border-box\",\n        maskClip: cs.maskClip || cs.webkitMaskClip || \"border-box\",\n        // DM-2472: BackgroundImageGeometry contracts the HTML border box by\n        // mask-origin independently from mask-clip. Computed padding/borders\n        // are pre-zoom CSS px while `rect` is already physical, so cross the\n        // effective-zoom boundary once at capture time.\n        maskBoxInsets: (function() {\n          var _maskImage = cs.maskImage || cs.webkitMaskImage || \"\";\n          if (_maskImage === \"\" || _maskImage === \"none\") return void 0;\n          var _zoom = _effectiveZoomFor(el);\n          var _physical = function(value) {\n            var _number = parseFloat(value || \"0\");\n            return Number.isFinite(_number) ? _number * _zoom : 0;\n          };\n          return {\n            border: {\n              top: _physical(cs.borderTopWidth),\n              right: _physical(cs.borderRightWidth),\n              bottom: _physical(cs.borderBottomWidth),\n              left: _physical(cs.borderLeftWidth)\n            },\n            padding: {\n              top: _physical(cs.paddingTop),\n              right: _physical(cs.paddingRight),\n              bottom: _physical(cs.paddingBottom),\n              left: _physical(cs.paddingLeft)\n            }\n          };\n        })(),\n        // DM-758: `mask-border-source` / legacy `-webkit-mask-box-image`. Chrome\n        // exposes only the legacy webkit name; modern `maskBorderSource`\n        // returns undefined. Capture source + slice / width / outset so the\n        // renderer can decide whether to route through the simplified\n        // full-element mask path (only safe when width / outset both `0`).\n        maskBorderSource: cs.webkitMaskBoxImageSource && cs.webkitMaskBoxImageSource !== \"none\" ? cs.webkitMaskBoxImageSource : void 0,\n        maskBorderSlice: cs.webkitMaskBoxImageSlice || void 0,\n        maskBorderWidth: cs.webkitMaskBoxImageWidth || void 0,\n        maskBorderOutset: cs.webkitMaskBoxImageOutset || void 0,\n        // DM-793: legacy `-webkit-mask-box-image-repeat` keyword (stretch /\n        // repeat / round / space) per axis. Mirrors `border-image-repeat`.\n        maskBorderRepeat: cs.webkitMaskBoxImageRepeat || void 0,\n        // DM-793: intrinsic dimensions of the mask-border-source raster /\n        // SVG asset. Same probe pattern as `borderImageIntrinsic*` — a\n        // detached `<img>` resolves the URL against the document base and\n        // reports `naturalWidth` / `naturalHeight` for raster sources and\n        // the `<svg width/height>` attributes (or viewBox-derived size) for\n        // SVG sources. Captured at capture time so the renderer can compute\n        // 9-slice source rects without re-fetching the asset.\n        maskBorderIntrinsicWidth: (function() {\n          var _url = extractCssUrl(cs.webkitMaskBoxImageSource || \"\");\n          if (_url == null) return void 0;\n          var _img = new Image();\n          _img.src = _url;\n          return _img.naturalWidth || void 0;\n        })(),\n        maskBorderIntrinsicHeight: (function() {\n          var _url = extractCssUrl(cs.webkitMaskBoxImageSource || \"\");\n          if (_url == null) return void 0;\n          var _img = new Image();\n          _img.src = _url;\n          return _img.naturalHeight || void 0;\n        })(),\n        listStyleType: cs.listStyleType,\n        listStyleImage: cs.listStyleImage,\n        display: cs.display,\n        listStylePosition: cs.listStylePosition,\n        paddingTop: cs.paddingTop,\n        paddingRight: cs.paddingRight,\n        paddingBottom: cs.paddingBottom,\n        paddingLeft: cs.paddingLeft,\n        marginTop: cs.marginTop,\n        marginRight: cs.marginRight,\n        marginBottom: cs.marginBottom,\n        marginLeft: cs.marginLeft,\n        zIndex: cs.zIndex,\n        position: cs.position,\n        float: cs.float,\n        // DM-1742: `pointer-events: none` makes an element transparent to\n        // cursor hit-testing (the auto cursor-overlay glyph picker). Captured\n        // only when `none` — the property inherits, so descendants report it\n        // themselves; every other value hit-tests normally.\n        pointerEvents: cs.pointerEvents === \"none\" ? \"none\" : void 0,\n        order: cs.order,\n        flexDirection: cs.flexDirection,\n        emptyCellsHidden: isTableCellHiddenByEmptyCells(el, cs, tag),\n        // Form-control fields — input / progress / meter / select / details\n        // + ::-webkit-* pseudos for slider track/thumb, color swatch, number\n        // spin button, search cancel, file-selector button. See\n        // walker/form-controls.ts. Input value-capture-as-text and color-\n        // input border tinting deliberately stay inline (entangled with\n        // text-shaping and border-color emission respectively).\n        ...captureFormControls(el, cs, tag),\n        ..._fileSelectorCapture,\n        // ComputedStyle::EffectiveAppearance after Blink's author-style\n        // adjustment. This is distinct from the computed `appearance`\n        // longhand and lets later decoration ownership split at the exact\n        // menulist-button boundary (DM-2455).\n        effectiveAppearance: _effectiveAppearance || void 0,\n        textShadow: cs.textShadow,\n        ...threadFrozenTransform(cs, frozenTransform, frozenTransformOrigin),\n        transformRelatedBox: _transformRelatedBox.get(el),\n        // CSS Transforms 2 §4: `transform-style` != `flat` (i.e. `preserve-3d`)\n        // creates a stacking context. Captured so the renderer's SC detection\n        // sees it; otherwise z-index:-1 descendants hoist past their intended\n        // SC and end up behind the wrong background (DM-589).\n        transformStyle: cs.transformStyle,\n        // DM-2385: keep perspective as its own computed ancestor signal. It\n        // creates stacking/fixed-CB ownership without appearing in a child's\n        // computed transform matrix; perspective-origin is the resolved\n        // border-box point and is inert when perspective computes to none.\n        perspective: cs.perspective,\n        perspectiveOrigin: cs.perspectiveOrigin,\n        backfaceVisibility: cs.backfaceVisibility,\n        webkitBoxReflect: cs.webkitBoxReflect,\n        willChange: cs.willChange,\n        contain: cs.contain,\n        isolation: cs.isolation,\n        writingMode: cs.writingMode,\n        textOrientation: cs.textOrientation,\n        // CSS resize: 'none' / 'both' / 'vertical' / 'horizontal' / 'block' /\n        // 'inline'. When non-none on a <textarea> Chrome paints a small\n        // diagonal-line resize handle in the bottom-right corner. (DM-339)\n        resize: cs.resize,\n        textOverflow: cs.textOverflow,\n        whiteSpace: cs.whiteSpace,\n        textTransform: cs.textTransform,\n        color: normColor(cs.color),\n        // DM-2470: font metrics live in Blink's pre-transform plane. Effective\n        // CSS zoom is layout-local and is crossed here exactly once; the later\n        // signed CSS transform is carried solely by textPaintGeometry.\n        fontSize: (function() {\n          var _fs = parseFloat(cs.fontSize);\n          if (!isFinite(_fs)) return cs.fontSize;\n          return (_fs * _effectiveZoomFor(el)).toFixed(4) + \"px\";\n        })(),\n        fontLogicalSize: cs.fontSize,\n        fontComputedSize: (function() {\n          var _fs = parseFloat(cs.fontSize);\n          if (!isFinite(_fs)) return cs.fontSize;\n          return (_fs * _effectiveZoomFor(el)).toFixed(4) + \"px\";\n        })(),\n        // DM-2051: an element with NO author-declared font-family is a Blink\n        // kStandardFamily description, which resolves to the SCRIPT-KEYED\n        // `settings.Standard(script)` — so `lang=ja` with no declared family\n        // paints the Japanese standard face for the whole run, though the\n        // computed string serializes to the concrete standard name (\"Times\").\n        // Rewrite that case to the `-webkit-standard` generic keyword, which is\n        // exactly what kStandardFamily maps to; the renderer's\n        // `matchFamilyNameToKey(\"-webkit-standard\", true, lang)` then routes it\n        // script-keyed. A declared `font-family: Times` (identical computed\n        // string, but Latin→Times / CJK→fallback) is left untouched.\n        fontFamily: _familyIsUADefault(el, cs.fontFamily) ? \"-webkit-standard\" : cs.fontFamily,\n        fontWeight: cs.fontWeight,\n        fontStyle: cs.fontStyle,\n        opacity: cs.opacity,\n        lineHeight: cs.lineHeight,\n        letterSpacing: cs.letterSpacing,\n        fontKerning: cs.fontKerning,\n        fontStretch: cs.fontStretch,\n        fontVariationSettings: cs.fontVariationSettings,\n        fontOpticalSizing: cs.fontOpticalSizing,\n        fontFeatureSettings: cs.fontFeatureSettings,\n        fontVariantAlternates: cs.fontVariantAlternates,\n        // The alias table is document-global but only alternate-bearing nodes\n        // can consume it; omit it from the common element shape to avoid\n        // repeating author rule data throughout the serialized tree.\n        fontFeatureValues: cs.fontVariantAlternates && cs.fontVariantAlternates !== \"normal\" ? _fontFeatureValuesFor(el.ownerDocument) : void 0,\n        // CSS font-variant-caps. 'small-caps' / 'all-small-caps' route to\n        // the OpenType smcp feature; renderer applies synthesized small-caps\n        // when the active font lacks smcp (Helvetica, Times, etc.). DM-361.\n        fontVariantCaps: cs.fontVariantCaps,\n        // CSS font-variant-east-asian / -numeric / -ligatures. Each maps to a\n        // set of OpenType feature tags (e.g. `traditional` → `trad`, `jis78` →\n        // `jp78`, `oldstyle-nums` → `onum`) that the path renderer forwards to\n        // fontkit shaping. Without these, e.g. `font-variant-east-asian:\n        // traditional` paints the simplified/JP default glyph (国) instead of\n        // the traditional form (國). DM-1117.\n        fontVariantEastAsian: cs.fontVariantEastAsian,\n        fontVariantNumeric: cs.fontVariantNumeric,\n        fontVariantLigatures: cs.fontVariantLigatures,\n        // CSS font-variant-position — maps to the OpenType subs/sups\n        // features (`font_features.cc:230-239`, rev 7d859f27). DM-2048.\n        fontVariantPosition: cs.fontVariantPosition,\n        // CSS font-synthesis-{weight,style,small-caps} — `auto` or `none`. Not a\n        // hint: Blink ANDs each into the corresponding synthesis decision, so\n        // `none` means Chrome paints the thin/upright/lowercase face where we\n        // would otherwise embolden, shear, or scale. DM-1971.\n        // CSS text-rendering — `optimizeSpeed` disables the normal-state\n        // ligature features at shaping time, the same way a non-zero\n        // letter-spacing does. DM-1963.\n        textRendering: cs.textRendering,\n        fontSynthesisWeight: cs.fontSynthesisWeight,\n        fontSynthesisStyle: cs.fontSynthesisStyle,\n        fontSynthesisSmallCaps: cs.fontSynthesisSmallCaps,\n        // CSS font-variant-emoji — a genuine face-selection input (it overrides\n        // the run's emoji-vs-text fallback priority and forces VS15/VS16 into\n        // the glyph lookups). The renderer threads it into the per-codepoint\n        // resolver and the raster-emoji overlay routing.\n        fontVariantEmoji: cs.fontVariantEmoji,\n        direction: cs.direction,\n        // `unicode-bidi` decides whether the characters' OWN bidi types are\n        // honored or overridden. `bidi-override` / `isolate-override` tell the\n        // UBA to treat every character as strong in `direction`, which is the\n        // one case the renderer cannot reconstruct from the text: it derives\n        // levels by running the algorithm on the characters, and the override\n        // is precisely an instruction to ignore what the characters say.\n        unicodeBidi: cs.unicodeBidi,\n        // Computed BCP-47 language tag from el.lang or nearest ancestor\n        // [lang], falling back to document.documentElement.lang. Used by the\n        // path renderer to route CJK Han fallback to the right PingFang\n        // regional variant. (DM-394)\n        lang: (function() {\n          var n = el;\n          while (n != null && n.nodeType === 1) {\n            if (n.lang) return n.lang;\n            n = n.parentElement;\n          }\n          return document.documentElement.lang || \"\";\n        })(),\n        textDecorationLine: cs.textDecorationLine,\n        textDecorationColor: cs.textDecorationColor,\n        textDecorationStyle: cs.textDecorationStyle,\n        textDecorationThickness: cs.textDecorationThickness,\n        textUnderlineOffset: cs.textUnderlineOffset,\n        textUnderlinePosition: cs.textUnderlinePosition,\n        textDecorationSkipInk: cs.textDecorationSkipInk,\n        // DM-920: text-emphasis. Captured per CSS Text Decoration 3 §3.5.\n        // `text-emphasis-style` resolved string (\"filled circle\" / \"open\n        // sesame\" / `\"★\"` etc.) maps to a single mark character in the\n        // renderer per Chromium's `ComputedStyle::TextEmphasisMarkString`\n        // (third_party/blink/renderer/core/style/computed_style.cc:\n        // kBullet U+2022 / kWhiteBullet U+25E6 / kBlackCircle U+25CF /\n        // kWhiteCircle U+25CB / kFisheye U+25C9 / kBullseye U+25CE /\n        // kBlackUpPointingTriangle U+25B2 / kWhiteUpPointingTriangle\n        // U+25B3 / kSesameDot U+FE45 / kWhiteSesameDot U+FE46).\n        textEmphasisStyle: cs.textEmphasisStyle,\n        textEmphasisColor: cs.textEmphasisColor,\n        textEmphasisPosition: cs.textEmphasisPosition\n      },\n      projectiveTransform,\n      projectiveHidden,\n      transformSubtreeRaster,\n      children,\n      imageSrc,\n      imageIntrinsic,\n      imageBroken,\n      imageAlt,\n      brokenImageFallback,\n      svgContent,\n      pseudoFragments: Array.isArray(_pseudoFragmentFacts) ? _pseudoFragmentFacts : void 0,\n      pseudoImages,\n      pseudoBoxes: pseudoBoxes.length > 0 ? pseudoBoxes : void 0,\n      // SK-1115: ::marker pseudo styles plus list-marker intrinsic dims and\n      // list-item index — see walker/lists-counters.ts.\n      ..._listsCounters,\n      textSegments: textSegments.length > 0 ? textSegments : void 0,\n      textPaintGeometry: _textPaintFact != null ? _textPaintFact.geometry : void 0,\n      // Correlation marker emitted only by the all-transform-neutral probe\n      // capture and consumed before that intermediate tree is discarded.\n      _textPaintSourceKey: args.tgp === true ? _textPaintSourceKeyFor(el) : void 0,\n      lineClampTextFragments: lineClampTextFragments || void 0,\n      textTop,\n      textLeft,\n      textHeight,\n      textWidth,\n      // DM-2446: Blink chooses and measures the face at computed size\n      // (logical CSS size × effective zoom), then the transform stage scales\n      // those metrics into paint space. Re-measure at computed size instead of\n      // multiplying logical-size metrics by zoom: variable-font metrics can\n      // change non-linearly when the computed size selects another instance.\n      fontAscent: (function() {\n        if (fontAscent == null) return fontAscent;\n        var _logical = parseFloat(cs.fontSize);\n        var _zoom = _effectiveZoomFor(el);\n        var _computed = _logical * _zoom;\n        if (!isFinite(_computed) || _zoom === 0) return fontAscent;\n        if (fontAscent !== _measureFontMetrics(cs).ascent) return fontAscent;\n        return _measureFontMetrics(cs, _computed.toFixed(4) + \"px\").ascent;\n      })(),\n      fontDescent: (function() {\n        if (fontDescent == null) return fontDescent;\n        var _logical = parseFloat(cs.fontSize);\n        var _zoom = _effectiveZoomFor(el);\n        var _computed = _logical * _zoom;\n        if (!isFinite(_computed) || _zoom === 0) return fontDescent;\n        if (fontDescent !== _measureFontMetrics(cs).descent) return fontDescent;\n        return _measureFontMetrics(cs, _computed.toFixed(4) + \"px\").descent;\n      })(),\n      inputXOffsets,\n      textImageUri,\n      textImageScale,\n      // Placeholder metadata (SK-1097 / SK-1100 / SK-1099): captured in\n      // walker/input-value.ts when the host is a placeholder-shown input\n      // or textarea. Undefined elsewhere.\n      isPlaceholderText: isPlaceholderCapture || void 0,\n      placeholderColor,\n      placeholderFontStyle,\n      placeholderFontWeight,\n      // Old-capture compatibility field. Current textarea and vertical text\n      // capture is fully vector; see walker/text-segments.ts.\n      elementRaster: computeElementRaster(el, cs, tag, rect, vp),\n      // DM-2149 / DM-2453: snapshot only appearances for which Blink's\n      // ThemePainter owns the complete host. EffectiveAppearance is derived\n      // above from the actual auto mapping and cascade-origin author flags.\n      // menulist-button/listbox/base states keep their author-owned host box\n      // structural; native decoration splitting is owned by DM-2455.\n      nativeControlRaster: (function() {\n        if (!_nativeControlTag || rect.width <= 0 || rect.height <= 0) return void 0;\n        if (_effectiveAppearance != null && !isWholeHostNativeAppearance(_effectiveAppearance)) return void 0;\n        const outlineWidth = parseFloat(cs.outlineWidth) || 0;\n        const outlineOffset = parseFloat(cs.outlineOffset) || 0;\n        const expand = cs.outlineStyle !== \"none\" && cs.outlineStyle !== \"hidden\" ? Math.max(0, outlineWidth + outlineOffset) : 0;\n        const paintOverflow = 1;\n        const rasterExpand = expand + paintOverflow;\n        return {\n          x: rect.left - vp.x - rasterExpand,\n          y: rect.top - vp.y - rasterExpand,\n          width: rect.width + rasterExpand * 2,\n          height: rect.height + rasterExpand * 2,\n          // Private capture-to-live-DOM correlation. The Node post-pass uses\n          // the pre-existing source registry, so no marker attribute can\n          // activate author CSS before the isolated Chromium screenshot.\n          sourceNodeIndex: _projectiveNodeIndex.get(el),\n          selector: sel2,\n          // LayoutProgress::IsDeterminate feeds ThemePainterDefault's native\n          // progress parameters. Only the missing-value state advances its\n          // platform paint independently of author animation timelines.\n          frameSensitive: tag === \"progress\" && !el.hasAttribute(\"value\") || void 0\n        };\n      })(),\n      // A CSS-owned host can still contain either ThemePainter's select arrow\n      // or layout-backed closed-UA-shadow decorations. Keep the host box and\n      // value text structural, but reserve this narrow overlay so a failed\n      // Chromium isolation can never reopen the sampled glyph functions.\n      nativeControlDecorationRaster: (function() {\n        if (_nativeDecorationKinds.length === 0 || rect.width <= 0 || rect.height <= 0) return void 0;\n        const rasterExpand = 1;\n        const _fileButtonPart = _nativeDecorationKinds.indexOf(\"file-selector-button\") >= 0 ? _nativeDecorationParts.find((_part) => _part.kind === \"file-selector-button\") : void 0;\n        const base = _fileButtonPart != null ? {\n          x: _fileButtonPart.x - vp.x,\n          y: _fileButtonPart.y - vp.y,\n          width: _fileButtonPart.width,\n          height: _fileButtonPart.height,\n          kinds: _nativeDecorationKinds,\n          exactPartBox: true\n        } : {\n          x: rect.left - vp.x - rasterExpand,\n          y: rect.top - vp.y - rasterExpand,\n          width: rect.width + rasterExpand * 2,\n          height: rect.height + rasterExpand * 2,\n          kinds: _nativeDecorationKinds\n        };\n        if (_nativeDecorationUnavailableReason != null) {\n          return Object.assign(base, {\n            unavailableReason: _nativeDecorationUnavailableReason,\n            selector: sel2\n          });\n        }\n        if (_missingNativeDecorationKinds.length > 0) {\n          return Object.assign(base, {\n            unavailableReason: \"pierced UA-shadow node missing: \" + _missingNativeDecorationKinds.join(\", \"),\n            selector: sel2\n          });\n        }\n        const selectArrow = _nativeDecorationKinds.indexOf(\"menulist-button-arrow\") >= 0;\n        if (!selectArrow && _nativeDecorationParts.length === 0) {\n          return Object.assign(base, { empty: true });\n        }\n        return Object.assign(base, {\n          sourceNodeIndex: _projectiveNodeIndex.get(el),\n          selector: sel2,\n          selectArrow: selectArrow || void 0,\n          parts: _nativeDecorationParts.length > 0 ? _nativeDecorationParts : void 0\n        });\n      })(),\n      // DM-2171: backdrop-filter samples already-painted content behind this\n      // element through a distinct Blink effect node. An img-rendered SVG has\n      // no equivalent input surface, so preserve Chromium's composited pixels\n      // for the complete isolation subtree at its paint-order position.\n      backdropFilterRaster: (function() {\n        const value = cs.backdropFilter || cs.webkitBackdropFilter || \"\";\n        if (value === \"\" || value === \"none\" || rect.width <= 0 || rect.height <= 0) return void 0;\n        const token = \"bf\" + _backdropRasterSeq++;\n        el.setAttribute(\"data-domotion-backdrop-raster\", token);\n        return { x: rect.left - vp.x, y: rect.top - vp.y, width: rect.width, height: rect.height, token };\n      })(),\n      // DM-2415: a CSS URL filter containing feConvolveMatrix needs Blink's\n      // original layer-space SourceGraphic pixels. The Node post-pass replaces\n      // this placeholder with the isolated, fully-filtered Chromium surface.\n      urlFilterRaster: urlFilterRasterToken == null ? void 0 : {\n        x: rect.left - vp.x,\n        y: rect.top - vp.y,\n        width: rect.width,\n        height: rect.height,\n        token: urlFilterRasterToken\n      }\n    };\n    detectInlineFragments(el, cs, vp, _captured);\n    if (bordersOnlyCell) {\n      _captured.text = \"\";\n      _captured.children = [];\n      _captured.styles.backgroundColor = \"rgba(0, 0, 0, 0)\";\n      _captured.styles.backgroundImage = void 0;\n      _captured.textSegments = void 0;\n      _captured.imageSrc = void 0;\n      _captured.svgContent = void 0;\n      _captured.pseudoImages = void 0;\n      _captured.elementRaster = void 0;\n    }\n    if (tag === \"iframe\" && !bordersOnlyCell) {\n      var _iframeNode = _captureIframeRecursion(el, cs, rect);\n      if (_iframeNode != null) {\n        _captured.children = [_iframeNode];\n        _captured._iframeRecursed = true;\n        _captured.styles.overflowX = \"hidden\";\n        _captured.styles.overflowY = \"hidden\";\n      }\n    }\n    handleReplacedElement(el, cs, tag, rect, _captured, bordersOnlyCell);\n    delete _captured._iframeRecursed;\n    if (!bordersOnlyCell) {\n      var _smg = _captureScrollMarkerGroup(el, cs, rect);\n      if (_smg) {\n        _captured.scrollMarkerGroup = _smg.node;\n        _captured._scrollMarkerGroupBefore = _smg.before;\n      }\n      var _sbtns = _captureScrollButtons(el, cs, rect);\n      if (_sbtns) _captured.scrollButtons = _sbtns;\n    }\n    return _captured;\n  };\n  function _captureScrollMarkerGroup(el, cs, rect) {\n    var smg = cs.scrollMarkerGroup != null && cs.scrollMarkerGroup !== \"\" ? cs.scrollMarkerGroup : cs.getPropertyValue ? cs.getPropertyValue(\"scroll-marker-group\") : \"\";\n    if (!smg || smg.indexOf(\"none\") === 0) return void 0;\n    var position = smg.indexOf(\"before\") === 0 ? \"before\" : smg.indexOf(\"after\") === 0 ? \"after\" : null;\n    if (!position) return void 0;\n    var items = [];\n    for (var i = 0; i < el.children.length; i++) {\n      var child = el.children[i];\n      var mcs = window.getComputedStyle(child, \"::scroll-marker\");\n      var content = mcs.content;\n      if (!content || content === \"none\" || content === \"normal\") continue;\n      items.push({ mcs, content });\n    }\n    if (items.length === 0) return void 0;\n    var gcs = window.getComputedStyle(el, \"::scroll-marker-group\");\n    var doc = el.ownerDocument;\n    var container = doc.createElement(\"div\");\n    var groupWidth = rect.width;\n    container.style.boxSizing = \"border-box\";\n    container.style.position = \"absolute\";\n    container.style.margin = \"0\";\n    container.style.display = gcs.display && gcs.display !== \"inline\" ? gcs.display : \"flex\";\n    container.style.justifyContent = gcs.justifyContent || \"center\";\n    container.style.alignItems = \"flex-start\";\n    container.style.gap = \"0\";\n    container.style.padding = gcs.padding || \"0\";\n    container.style.background = gcs.backgroundColor || \"transparent\";\n    container.style.borderRadius = gcs.borderRadius || \"0\";\n    container.style.width = groupWidth + \"px\";\n    container.style.left = \"-99999px\";\n    container.style.top = \"0px\";\n    for (var j = 0; j < items.length; j++) {\n      var mc = items[j].mcs;\n      var m = doc.createElement(\"div\");\n      var txt = items[j].content;\n      if (txt === '\"\"' || txt === \"''\") txt = \"\";\n      else if (txt.length >= 2 && (txt[0] === '\"' && txt[txt.length - 1] === '\"' || txt[0] === \"'\" && txt[txt.length - 1] === \"'\")) txt = txt.slice(1, -1);\n      else txt = \"\";\n      m.textContent = txt;\n      m.style.boxSizing = mc.boxSizing || \"content-box\";\n      m.style.flex = \"0 0 auto\";\n      if (txt === \"\") {\n        m.style.width = mc.width;\n        m.style.height = mc.height;\n      }\n      m.style.borderRadius = mc.borderRadius;\n      m.style.background = mc.backgroundColor;\n      m.style.color = mc.color;\n      m.style.marginTop = mc.marginTop || \"0\";\n      m.style.marginBottom = mc.marginBottom || \"0\";\n      m.style.marginLeft = mc.marginLeft || \"0\";\n      m.style.marginRight = mc.marginRight || \"0\";\n      m.style.paddingTop = mc.paddingTop;\n      m.style.paddingBottom = mc.paddingBottom;\n      m.style.paddingLeft = \"0\";\n      m.style.paddingRight = \"0\";\n      m.style.fontSize = mc.fontSize;\n      m.style.fontWeight = mc.fontWeight;\n      m.style.fontFamily = mc.fontFamily;\n      m.style.lineHeight = mc.lineHeight;\n      m.style.display = mc.display && mc.display !== \"inline\" ? mc.display : \"inline-block\";\n      if (mc.transform && mc.transform !== \"none\") m.style.transform = mc.transform;\n      if (mc.transformOrigin) m.style.transformOrigin = mc.transformOrigin;\n      var bw = parseFloat(mc.borderTopWidth || \"0\") || 0;\n      if (bw > 0) {\n        m.style.borderStyle = mc.borderTopStyle;\n        m.style.borderWidth = mc.borderTopWidth;\n        m.style.borderColor = mc.borderTopColor;\n      }\n      container.appendChild(m);\n    }\n    var padTop = parseFloat(gcs.paddingTop || \"0\") || 0;\n    var padBottom = parseFloat(gcs.paddingBottom || \"0\") || 0;\n    var groupBoxH = padTop + padBottom;\n    container.style.height = groupBoxH + \"px\";\n    container.style.overflow = \"visible\";\n    doc.body.appendChild(container);\n    var targetTop = position === \"after\" ? rect.bottom : rect.top - groupBoxH;\n    container.style.left = rect.left + window.scrollX + \"px\";\n    container.style.top = targetTop + window.scrollY + \"px\";\n    var node = capture(container);\n    doc.body.removeChild(container);\n    if (!node) return void 0;\n    return { node, before: position === \"before\" };\n  }\n  function _scrollButtonAuthorRules(el) {\n    var sides = {};\n    var disabled = {};\n    var star = {};\n    var sheets = el.ownerDocument.styleSheets;\n    for (var s = 0; s < sheets.length; s++) {\n      var rules;\n      try {\n        rules = sheets[s].cssRules;\n      } catch (e) {\n        continue;\n      }\n      if (!rules) continue;\n      for (var r = 0; r < rules.length; r++) {\n        var rule = rules[r];\n        var sel2 = rule.selectorText;\n        if (!sel2) continue;\n        var at = sel2.indexOf(\"::scroll-button(\");\n        if (at < 0) continue;\n        var close = sel2.indexOf(\")\", at);\n        if (close < 0) continue;\n        var dir = sel2.slice(at + 16, close).trim();\n        var base = sel2.slice(0, at).trim();\n        var matches = false;\n        try {\n          matches = base === \"\" || el.matches(base);\n        } catch (e) {\n          matches = false;\n        }\n        if (!matches) continue;\n        var isDisabled = sel2.slice(close + 1).indexOf(\":disabled\") >= 0;\n        var bucket = isDisabled ? disabled : dir === \"*\" ? star : sides[dir] || (sides[dir] = {});\n        var decl = rule.style;\n        for (var d = 0; d < decl.length; d++) bucket[decl[d]] = decl.getPropertyValue(decl[d]);\n      }\n    }\n    for (var k in sides) {\n      if (!Object.prototype.hasOwnProperty.call(sides, k)) continue;\n      var merged = {};\n      for (var sp in star) if (Object.prototype.hasOwnProperty.call(star, sp)) merged[sp] = star[sp];\n      for (var op in sides[k]) if (Object.prototype.hasOwnProperty.call(sides[k], op)) merged[op] = sides[k][op];\n      sides[k] = merged;\n    }\n    return { sides, disabled };\n  }\n  function _captureScrollButtons(el, cs, rect) {\n    var probe = window.getComputedStyle(el, \"::scroll-button(left)\").content;\n    if (!probe || probe === \"none\" || probe === \"normal\") {\n      probe = window.getComputedStyle(el, \"::scroll-button(right)\").content;\n      if (!probe || probe === \"none\" || probe === \"normal\") return void 0;\n    }\n    var rules = _scrollButtonAuthorRules(el);\n    var doc = el.ownerDocument;\n    var maxX = el.scrollWidth - el.clientWidth;\n    var maxY = el.scrollHeight - el.clientHeight;\n    var nodes = [];\n    for (var dir in rules.sides) {\n      if (!Object.prototype.hasOwnProperty.call(rules.sides, dir)) continue;\n      var decls = rules.sides[dir];\n      var isDisabled = false;\n      if (dir === \"left\" || dir === \"inline-start\") isDisabled = el.scrollLeft <= 0;\n      else if (dir === \"right\" || dir === \"inline-end\") isDisabled = el.scrollLeft >= maxX - 1;\n      else if (dir === \"up\" || dir === \"block-start\") isDisabled = el.scrollTop <= 0;\n      else if (dir === \"down\" || dir === \"block-end\") isDisabled = el.scrollTop >= maxY - 1;\n      var btn = doc.createElement(\"div\");\n      var content = \"\";\n      for (var p in decls) {\n        if (!Object.prototype.hasOwnProperty.call(decls, p)) continue;\n        if (p === \"content\") {\n          content = decls[p];\n          continue;\n        }\n        try {\n          btn.style.setProperty(p, decls[p]);\n        } catch (e) {\n        }\n      }\n      if (isDisabled) {\n        for (var dp in rules.disabled) {\n          if (!Object.prototype.hasOwnProperty.call(rules.disabled, dp)) continue;\n          try {\n            btn.style.setProperty(dp, rules.disabled[dp]);\n          } catch (e) {\n          }\n        }\n      }\n      if (!btn.style.position || btn.style.position === \"static\") btn.style.position = \"absolute\";\n      btn.style.margin = \"0\";\n      var txt = \"\";\n      if (content.length >= 2 && (content[0] === '\"' && content[content.length - 1] === '\"' || content[0] === \"'\" && content[content.length - 1] === \"'\")) {\n        txt = content.slice(1, -1);\n      }\n      btn.textContent = txt;\n      doc.body.appendChild(btn);\n      var node = capture(btn);\n      doc.body.removeChild(btn);\n      if (node) nodes.push(node);\n    }\n    return nodes.length ? nodes : void 0;\n  }\n  function _frameIsCrossOrigin(el) {\n    try {\n      var w = el.contentWindow;\n      if (w == null) return true;\n      var o = w.location && w.location.origin;\n      if (o == null || o === \"\" || o === \"null\") return false;\n      return o !== location.origin;\n    } catch (e) {\n      return true;\n    }\n  }\n  function _crossOriginFrameAllowed(el) {\n    if (_crossOriginAllow == null) return false;\n    var url;\n    try {\n      url = el.contentWindow && el.contentWindow.location ? el.contentWindow.location.href : el.src;\n    } catch (e) {\n      url = el.src;\n    }\n    return frameHostAllowed(url || \"\", _crossOriginAllow);\n  }\n  function _iframeIsRecursable(el) {\n    if (el.tagName == null || el.tagName.toLowerCase() !== \"iframe\") return null;\n    var doc;\n    try {\n      doc = el.contentDocument;\n    } catch (e) {\n      return null;\n    }\n    if (doc == null || doc.body == null || doc.documentElement == null) return null;\n    if (_frameIsCrossOrigin(el) && !_crossOriginFrameAllowed(el)) return null;\n    return doc;\n  }\n  function _captureIframeRecursion(el, cs, rect) {\n    var doc = _iframeIsRecursable(el);\n    if (doc == null) return void 0;\n    var bsw = sideWidths(cs, \"border\", \"Width\");\n    var dx = rect.left + bsw.left + (parseFloat(cs.paddingLeft) || 0);\n    var dy = rect.top + bsw.top + (parseFloat(cs.paddingTop) || 0);\n    var savedX = vp.x, savedY = vp.y;\n    vp.x = savedX - dx;\n    vp.y = savedY - dy;\n    var node;\n    try {\n      _runInnerDocumentPrePasses(doc);\n      node = capture(doc.documentElement);\n    } catch (e) {\n      node = void 0;\n    } finally {\n      vp.x = savedX;\n      vp.y = savedY;\n    }\n    if (node == null) return void 0;\n    var canvasColor = _resolveIframeCanvasColor(doc);\n    if (canvasColor != null) {\n      node.styles.backgroundColor = canvasColor;\n      var vpW = doc.documentElement.clientWidth || node.width;\n      var vpH = doc.documentElement.clientHeight || node.height;\n      if (node.width < vpW) node.width = vpW;\n      if (node.height < vpH) node.height = vpH;\n    }\n    return node;\n  }\n  function _isOpaqueColor(c) {\n    return c != null && c !== \"\" && c !== \"transparent\" && !/,\\s*0\\s*\\)\\s*$/.test(c);\n  }\n  function _resolveIframeCanvasColor(doc) {\n    var htmlBg = getComputedStyle(doc.documentElement).backgroundColor;\n    if (_isOpaqueColor(htmlBg)) return normColor(htmlBg);\n    var bodyBg = doc.body != null ? getComputedStyle(doc.body).backgroundColor : null;\n    if (_isOpaqueColor(bodyBg)) return normColor(bodyBg);\n    return null;\n  }\n  function _runInnerDocumentPrePasses(doc) {\n    var rootEl = doc.documentElement;\n    var allEls = rootEl.getElementsByTagName(\"*\");\n    for (var i = 0; i < allEls.length; i++) {\n      var el = allEls[i];\n      var pos = getComputedStyle(el).position;\n      if (pos !== \"fixed\" && pos !== \"sticky\") continue;\n      var r = el.getBoundingClientRect();\n      if (r.right < vp.x || r.bottom < vp.y || r.left > vp.x + vp.width || r.top > vp.y + vp.height) continue;\n      var cur = el.parentElement;\n      while (cur != null && cur !== rootEl.parentElement) {\n        if (_fixedAncestors.has(cur)) break;\n        _fixedAncestors.add(cur);\n        cur = cur.parentElement;\n      }\n    }\n    for (var t = 0; t < allEls.length; t++) {\n      var tel = allEls[t];\n      var tt = getComputedStyle(tel).transform;\n      if (tt === \"none\" || tt === \"\") continue;\n      _transformInfluenced.add(tel);\n      var tdescs = tel.getElementsByTagName(\"*\");\n      for (var td = 0; td < tdescs.length; td++) _transformInfluenced.add(tdescs[td]);\n    }\n    _counterPreWalk(rootEl);\n    _runCounterStylePrewalk(doc);\n  }\n  const root = document.querySelector(sel);\n  if (!root) return { tree: [], warnings: [] };\n  const _fixedAncestors = /* @__PURE__ */ new Set();\n  const _allEls = root.getElementsByTagName(\"*\");\n  for (let _i = 0; _i < _allEls.length; _i++) {\n    const _el = _allEls[_i];\n    const _pos = getComputedStyle(_el).position;\n    if (_pos !== \"fixed\" && _pos !== \"sticky\") continue;\n    const _r = _el.getBoundingClientRect();\n    const _outside = _r.right < vp.x || _r.bottom < vp.y || _r.left > vp.x + vp.width || _r.top > vp.y + vp.height;\n    if (_outside) continue;\n    let _cur = _el.parentElement;\n    while (_cur != null && _cur !== root.parentElement) {\n      if (_fixedAncestors.has(_cur)) break;\n      _fixedAncestors.add(_cur);\n      _cur = _cur.parentElement;\n    }\n  }\n  const _transformInfluenced = /* @__PURE__ */ new Set();\n  for (let _ti = 0; _ti < _allEls.length; _ti++) {\n    const _tel = _allEls[_ti];\n    const _tt = getComputedStyle(_tel).transform;\n    if (_tt === \"none\" || _tt === \"\") continue;\n    _transformInfluenced.add(_tel);\n    const _tdescs = _tel.getElementsByTagName(\"*\");\n    for (let _tj = 0; _tj < _tdescs.length; _tj++) {\n      _transformInfluenced.add(_tdescs[_tj]);\n    }\n  }\n  const _transformRelatedBox = /* @__PURE__ */ new WeakMap();\n  const _transformRelatedWillChange = /* @__PURE__ */ new Set([\n    \"transform\",\n    \"transform-style\",\n    \"perspective\",\n    \"translate\",\n    \"rotate\",\n    \"scale\",\n    \"offset-path\",\n    \"offset-position\"\n  ]);\n  const _hasTransformRelatedSignal = (_cs) => {\n    if (_cs.transform != null && _cs.transform !== \"\" && _cs.transform !== \"none\" || _cs.translate != null && _cs.translate !== \"\" && _cs.translate !== \"none\" || _cs.rotate != null && _cs.rotate !== \"\" && _cs.rotate !== \"none\" || _cs.scale != null && _cs.scale !== \"\" && _cs.scale !== \"none\" || _cs.transformStyle === \"preserve-3d\" || _cs.perspective != null && _cs.perspective !== \"\" && _cs.perspective !== \"none\") return true;\n    if (_cs.willChange == null || _cs.willChange === \"\" || _cs.willChange === \"auto\") return false;\n    const _tokens = _cs.willChange.split(/[\\s,]+/);\n    for (let _wi = 0; _wi < _tokens.length; _wi++) {\n      if (_transformRelatedWillChange.has(_tokens[_wi].toLowerCase())) return true;\n    }\n    return false;\n  };\n  const _ownershipEls = [root, ...Array.from(_allEls)];\n  let _ownershipAncestor = root.parentElement;\n  while (_ownershipAncestor != null) {\n    _ownershipEls.push(_ownershipAncestor);\n    _ownershipAncestor = _ownershipAncestor.parentElement;\n  }\n  const _probeUnsupportedTags = /^(?:AUDIO|CANVAS|EMBED|IFRAME|IMG|INPUT|METER|OBJECT|PROGRESS|SELECT|TEXTAREA|VIDEO)$/;\n  for (let _oi = 0; _oi < _ownershipEls.length; _oi++) {\n    const _owner = _ownershipEls[_oi];\n    const _ownerStyle = getComputedStyle(_owner);\n    if (!_hasTransformRelatedSignal(_ownerStyle)) continue;\n    if (_owner.namespaceURI === \"http://www.w3.org/2000/svg\" || _probeUnsupportedTags.test(_owner.tagName)) continue;\n    const _probeHost = document.createElement(\"span\");\n    _probeHost.setAttribute(\"aria-hidden\", \"true\");\n    _probeHost.style.setProperty(\"all\", \"initial\", \"important\");\n    _probeHost.style.setProperty(\"display\", _ownerStyle.display, \"important\");\n    _probeHost.style.setProperty(\"perspective\", \"1px\", \"important\");\n    _probeHost.style.setProperty(\"visibility\", \"hidden\", \"important\");\n    _probeHost.style.setProperty(\"width\", \"0\", \"important\");\n    _probeHost.style.setProperty(\"height\", \"0\", \"important\");\n    _probeHost.style.setProperty(\"margin\", \"0\", \"important\");\n    _probeHost.style.setProperty(\"padding\", \"0\", \"important\");\n    _probeHost.style.setProperty(\"border\", \"0\", \"important\");\n    const _probe = document.createElement(\"i\");\n    _probe.setAttribute(\"aria-hidden\", \"true\");\n    _probe.style.setProperty(\"all\", \"initial\", \"important\");\n    _probe.style.setProperty(\"position\", \"fixed\", \"important\");\n    _probe.style.setProperty(\"width\", \"0\", \"important\");\n    _probe.style.setProperty(\"height\", \"0\", \"important\");\n    _probeHost.appendChild(_probe);\n    try {\n      (document.body || document.documentElement).appendChild(_probeHost);\n      _transformRelatedBox.set(_owner, _probe.offsetParent === _probeHost);\n    } catch (_e) {\n    } finally {\n      _probeHost.remove();\n    }\n  }\n  const _projectiveFacts = Array.isArray(args.pq) ? args.pq : [];\n  const _projectiveDomNodes = typeof args.pqk === \"string\" && Array.isArray(globalThis[args.pqk]) ? globalThis[args.pqk] : [];\n  const _projectiveNodeIndex = /* @__PURE__ */ new WeakMap();\n  const _projectedQuads = /* @__PURE__ */ new WeakMap();\n  const _projectiveAbsH = /* @__PURE__ */ new WeakMap();\n  for (let _pi = 0; _pi < _projectiveFacts.length; _pi++) {\n    const _fact = _projectiveFacts[_pi];\n    const _pel = _projectiveDomNodes[_pi];\n    if (_pel == null || _fact == null) continue;\n    _projectiveNodeIndex.set(_pel, _pi);\n    if (_fact.role === \"svg-graphics\") continue;\n    const _values = _fact.borderQuad || _fact.quad;\n    if (!Array.isArray(_values) || _values.length !== 8) continue;\n    _projectedQuads.set(_pel, [\n      { x: _values[0], y: _values[1] },\n      { x: _values[2], y: _values[3] },\n      { x: _values[4], y: _values[5] },\n      { x: _values[6], y: _values[7] }\n    ]);\n  }\n  const _nonAffineProjectiveRoots = /* @__PURE__ */ new Set();\n  for (const _ownerIndex of selectProjectiveRasterOwnerIndexes(_projectiveFacts)) {\n    const _owner = _projectiveDomNodes[_ownerIndex];\n    if (_owner != null) _nonAffineProjectiveRoots.add(_owner);\n  }\n  const _invertH = (m) => {\n    const [a, b, c, d, e, f, g, h, i] = m;\n    const A = e * i - f * h, B = c * h - b * i, C = b * f - c * e;\n    const D = f * g - d * i, E = a * i - c * g, F = c * d - a * f;\n    const G = d * h - e * g, H = b * g - a * h, I = a * e - b * d;\n    const det = a * A + b * D + c * G;\n    if (!isFinite(det) || Math.abs(det) < 1e-12) return null;\n    return [A / det, B / det, C / det, D / det, E / det, F / det, G / det, H / det, I / det];\n  };\n  const _mulH = (a, b) => [\n    a[0] * b[0] + a[1] * b[3] + a[2] * b[6],\n    a[0] * b[1] + a[1] * b[4] + a[2] * b[7],\n    a[0] * b[2] + a[1] * b[5] + a[2] * b[8],\n    a[3] * b[0] + a[4] * b[3] + a[5] * b[6],\n    a[3] * b[1] + a[4] * b[4] + a[5] * b[7],\n    a[3] * b[2] + a[4] * b[5] + a[5] * b[8],\n    a[6] * b[0] + a[7] * b[3] + a[8] * b[6],\n    a[6] * b[1] + a[7] * b[4] + a[8] * b[7],\n    a[6] * b[2] + a[7] * b[5] + a[8] * b[8]\n  ];\n  const _homographyForRect = (rect, q) => {\n    const x = rect.left - vp.x, y = rect.top - vp.y, w = rect.width, h = rect.height;\n    if (w <= 0 || h <= 0) return null;\n    const a = (q[1].x - q[0].x) / w, d = (q[1].y - q[0].y) / w;\n    const b = (q[3].x - q[0].x) / h, e = (q[3].y - q[0].y) / h;\n    return [a, b, q[0].x - a * x - b * y, d, e, q[0].y - d * x - e * y, 0, 0, 1];\n  };\n  const _animInfluenced = /* @__PURE__ */ new Set();\n  for (let _ai = 0; _ai < _allEls.length; _ai++) {\n    const _ael = _allEls[_ai];\n    if (_ael.dataset == null || _ael.dataset.domotionAnim == null || _ael.dataset.domotionAnim === \"\") continue;\n    _animInfluenced.add(_ael);\n    const _adescs = _ael.getElementsByTagName(\"*\");\n    for (let _aj = 0; _aj < _adescs.length; _aj++) _animInfluenced.add(_adescs[_aj]);\n  }\n  const _cumulativeZoom = /* @__PURE__ */ new Map();\n  const _effectiveZoomFor = (el) => {\n    if (el == null) return 1;\n    const hit = _cumulativeZoom.get(el);\n    if (hit != null) return hit;\n    const parentZoom = _effectiveZoomFor(el.parentElement);\n    const own = parseFloat(getComputedStyle(el).zoom);\n    const zoom = parentZoom * (Number.isFinite(own) && own > 0 ? own : 1);\n    _cumulativeZoom.set(el, zoom);\n    return zoom;\n  };\n  const _backgroundAttachmentAxisScale = (_tt) => {\n    if (_tt == null || _tt === \"none\" || _tt === \"\") return [1, 1];\n    const _m2 = /^matrix\\(\\s*([-\\d.eE+]+)\\s*,\\s*([-\\d.eE+]+)\\s*,\\s*([-\\d.eE+]+)\\s*,\\s*([-\\d.eE+]+)/.exec(_tt);\n    let _sa = 1, _sd = 1;\n    if (_m2 != null) {\n      _sa = parseFloat(_m2[1]);\n      _sd = parseFloat(_m2[4]);\n    } else {\n      const _m3 = /^matrix3d\\(([^)]+)\\)/.exec(_tt);\n      if (_m3 != null) {\n        const _parts = _m3[1].split(\",\");\n        _sa = parseFloat(_parts[0]);\n        _sd = parseFloat(_parts[5]);\n      }\n    }\n    if (!isFinite(_sa) || !isFinite(_sd)) return [1, 1];\n    const _sx = Math.abs(_sa) > 0 ? Math.abs(_sa) : 1;\n    const _sy = Math.abs(_sd) > 0 ? Math.abs(_sd) : 1;\n    return [_sx, _sy];\n  };\n  const _backgroundAttachmentPaintScale = /* @__PURE__ */ new WeakMap();\n  const _backgroundAttachmentPaintScaleFor = (el) => {\n    if (el == null) return [1, 1];\n    const _hit = _backgroundAttachmentPaintScale.get(el);\n    if (_hit != null) return _hit;\n    const _parent = _backgroundAttachmentPaintScaleFor(el.parentElement);\n    const _styleWindow = el.ownerDocument?.defaultView ?? window;\n    const _style = _styleWindow.getComputedStyle(el);\n    const _effectiveTransform = composeEffectiveTransform(_style);\n    const _ownScale = transformHasRotationOrSkew(_effectiveTransform) ? [1, 1] : _backgroundAttachmentAxisScale(_effectiveTransform);\n    const _ownZoom = parseFloat(_style.zoom);\n    const _zoom = Number.isFinite(_ownZoom) && _ownZoom > 0 ? _ownZoom : 1;\n    const _resolved = [\n      _parent[0] * _ownScale[0] * _zoom,\n      _parent[1] * _ownScale[1] * _zoom\n    ];\n    _backgroundAttachmentPaintScale.set(el, _resolved);\n    return _resolved;\n  };\n  const _counterSnapshot = /* @__PURE__ */ new WeakMap();\n  function _parseCounterDecl(declStr, defaultValue) {\n    if (!declStr || declStr === \"none\") return [];\n    const tokens = declStr.split(/\\s+/);\n    const out = [];\n    let i = 0;\n    while (i < tokens.length) {\n      const name = tokens[i++];\n      if (!name) continue;\n      let value = defaultValue;\n      if (i < tokens.length && /^-?\\d+$/.test(tokens[i])) {\n        value = parseInt(tokens[i++], 10);\n      }\n      out.push({ name, value });\n    }\n    return out;\n  }\n  const _counterStacks = /* @__PURE__ */ new Map();\n  const _isAncestorOrSelf = (ancestor, node) => ancestor === node || ancestor.contains(node);\n  function _stack(name) {\n    let stack = _counterStacks.get(name);\n    if (stack == null) {\n      stack = [];\n      _counterStacks.set(name, stack);\n    }\n    return stack;\n  }\n  function _removeStale(name, el) {\n    const stack = _stack(name);\n    while (stack.length > 0) {\n      const parent = stack[stack.length - 1].scopeParent;\n      if (parent == null || _isAncestorOrSelf(parent, el)) break;\n      stack.pop();\n    }\n  }\n  function _findInnermost(name) {\n    const stack = _stack(name);\n    return stack.length ? stack[stack.length - 1] : null;\n  }\n  function _snapshotCounters() {\n    const result2 = [];\n    for (const [name, stack] of _counterStacks) for (const entry2 of stack) result2.push({ name, value: entry2.value });\n    return result2;\n  }\n  function _applyCounterStyle(owner, scopeParent, style) {\n    const touched = /* @__PURE__ */ new Set();\n    const resets = _parseCounterDecl(style.counterReset, 0);\n    const increments = _parseCounterDecl(style.counterIncrement, 1);\n    const sets = _parseCounterDecl(style.counterSet, 0);\n    for (const item of [...resets, ...increments, ...sets]) touched.add(item.name);\n    for (const name of touched) _removeStale(name, owner);\n    for (const { name, value } of resets) {\n      const stack = _stack(name);\n      if (stack.length && stack[stack.length - 1].scopeParent === scopeParent) stack.pop();\n      stack.push({ name, value, owner, scopeParent });\n    }\n    for (const { name, value } of increments) {\n      const current = _findInnermost(name);\n      if (current) current.value += value;\n      else _stack(name).push({ name, value, owner, scopeParent });\n    }\n    for (const { name, value } of sets) {\n      const current = _findInnermost(name);\n      if (current) current.value = value;\n      else _stack(name).push({ name, value, owner, scopeParent });\n    }\n    return touched;\n  }\n  function _counterPreWalk(el) {\n    const cs = window.getComputedStyle(el);\n    const touched = _applyCounterStyle(el, el.parentElement, cs);\n    const beforeStyle = window.getComputedStyle(el, \"::before\");\n    for (const name of _applyCounterStyle(el, el, beforeStyle)) touched.add(name);\n    const snapshots = { element: _snapshotCounters(), \"::before\": _snapshotCounters(), \"::after\": null };\n    for (const child of el.children) _counterPreWalk(child);\n    const afterStyle = window.getComputedStyle(el, \"::after\");\n    for (const name of _applyCounterStyle(el, el, afterStyle)) touched.add(name);\n    snapshots[\"::after\"] = _snapshotCounters();\n    _counterSnapshot.set(el, snapshots);\n    for (const name of touched) {\n      const stack = _stack(name);\n      if (stack.length < 2 || stack[stack.length - 1].owner !== el) continue;\n      const previous = stack[stack.length - 2].owner;\n      if (previous instanceof Element && previous.contains(el)) stack.pop();\n    }\n  }\n  _counterPreWalk(root);\n  _runCounterStylePrewalk();\n  const result = [];\n  const rootCs = window.getComputedStyle(root);\n  const rootHasBorder = (parseFloat(rootCs.borderTopWidth) || 0) > 0 || (parseFloat(rootCs.borderRightWidth) || 0) > 0 || (parseFloat(rootCs.borderBottomWidth) || 0) > 0 || (parseFloat(rootCs.borderLeftWidth) || 0) > 0;\n  const rootBg = rootCs.backgroundColor;\n  const rootBgImage = rootCs.backgroundImage;\n  const rootHasBgImage = rootBgImage != null && rootBgImage !== \"none\" && rootBgImage !== \"\";\n  const rootHasBg = rootBg != null && rootBg !== \"rgba(0, 0, 0, 0)\" && rootBg !== \"transparent\" || rootHasBgImage;\n  let rootHasDirectText = false;\n  for (const node of root.childNodes) {\n    if (node.nodeType === Node.TEXT_NODE && (node.textContent || \"\").trim() !== \"\") {\n      rootHasDirectText = true;\n      break;\n    }\n  }\n  if (rootHasBorder || rootHasBg || rootHasDirectText || _nonAffineProjectiveRoots.has(root)) {\n    const c = capture(root);\n    if (c) result.push(c);\n  } else {\n    for (const child of root.children) {\n      const c = capture(child);\n      if (c) result.push(c);\n    }\n  }\n  if (_maskDefs.size > 0 && result.length > 0) {\n    result[0].maskDefs = Array.from(_maskDefs.values());\n  }\n  if (_clipPathDefs.size > 0 && result.length > 0) {\n    result[0].clipPathDefs = Array.from(_clipPathDefs.values());\n  }\n  if (_filterDefs.size > 0 && result.length > 0) {\n    result[0].filterDefs = Array.from(_filterDefs.values());\n  }\n  if (_maskRasters.size > 0 && result.length > 0) {\n    var rasterArr = [];\n    for (var entry of _maskRasters.values()) {\n      if (entry != null) rasterArr.push(entry);\n    }\n    if (rasterArr.length > 0) result[0].maskRasters = rasterArr;\n  }\n  if (result.length > 0) {\n    try {\n      var _rootScrollbarOwner = document.scrollingElement;\n      var _rootScrollbarRecord = _rootScrollbarOwner != null && typeof args.sk === \"string\" && args.sk !== \"\" ? _rootScrollbarOwner[args.sk] : void 0;\n      if (_rootScrollbarRecord != null) result[0].rootScrollbars = _rootScrollbarRecord;\n      var _isDark = window.matchMedia(\"(prefers-color-scheme: dark)\").matches;\n      result[0].styles.rootColorScheme = _isDark ? \"dark\" : \"light\";\n      var _docCs = window.getComputedStyle(document.documentElement);\n      result[0].styles.rootBgComputed = _docCs.backgroundColor;\n      result[0].styles.rootOverflowX = _docCs.overflowX;\n      result[0].styles.rootOverflowY = _docCs.overflowY;\n    } catch (_e) {\n    }\n  }\n  return { tree: result, warnings: _warnings };\n};\nreturn ((args) => {\n  const colorNorm = createColorNorm();\n  try {\n    return captureDocumentTree(args, colorNorm);\n  } finally {\n    colorNorm.dispose();\n  }\n});\n})()\n";
diff --git a/src/capture/script/color-norm.ts b/src/capture/script/color-norm.ts
index 801c8f3..ab5295f 100644
--- a/src/capture/script/color-norm.ts
+++ b/src/capture/script/color-norm.ts
@@ -76,5 +76,9 @@ export const createColorNorm = () => {
     return out;
   };
 
-  return { normColor, normGradientColors };
+  // The probe lives in the captured document: the caller removes it again once
+  // the walk is over, or every capture would leave one more element behind.
+  const dispose = () => { probe.remove(); };
+
+  return { normColor, normGradientColors, dispose };
 };
diff --git a/src/capture/script/index.ts b/src/capture/script/index.ts
index d435ae1..a32d85a 100644
--- a/src/capture/script/index.ts
+++ b/src/capture/script/index.ts
@@ -63,7 +63,7 @@ import {
 import { nativeControlDecorationKinds } from "../native-control-decoration.js";
 
 const captureDocumentTree =
-(args) => {
+(args, colorNorm) => {
   const sel = args.sel;
   const vp = args.vp;
   // DM-1442: cross-origin <iframe> recursion allowlist (the parsed
@@ -126,7 +126,7 @@ const captureDocumentTree =
   // returns the handles captureInner / the orchestration tail call. Renamed
   // (e.g. `warnings: _warnings`) to keep captureInner's existing references
   // unchanged.
-  const { normColor, normGradientColors } = createColorNorm();
+  const { normColor, normGradientColors } = colorNorm;
   const { rasterCandidates, textNeedsRaster } = createEmojiDetect();
   const { markGetsDottedCircle } = createDottedCircleDetect();
   const { measureFontMetrics: _measureFontMetrics, substituteAliasedFamilies: _substituteAliasedFamilies } = createFontMetrics();
@@ -2376,4 +2376,11 @@ const captureDocumentTree =
 ;
 
 /** Serializable in-page capture entry point; orchestration lives above. */
-export const captureScript = (args) => captureDocumentTree(args);
+export const captureScript = (args) => {
+  const colorNorm = createColorNorm();
+  try {
+    return captureDocumentTree(args, colorNorm);
+  } finally {
+    colorNorm.dispose();
+  }
+};
-- 
2.43.0


From 27a7672fcb2392cd1bb777a0f62c9757734b7e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:35 +0000
Subject: [PATCH 14/44] fix: always remove the capture walk's marker
 attributes, in every frame and shadow root

---
 src/capture/index.ts | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/capture/index.ts b/src/capture/index.ts
index 2a14a87..00bbd3d 100644
--- a/src/capture/index.ts
+++ b/src/capture/index.ts
@@ -1614,6 +1614,7 @@ export async function captureElementTreeWithWarnings(
       await pseudoStyles?.dispose();
       await projectiveProbe?.dispose();
       await textPaintProbe?.dispose();
+      await clearWalkMarkers(page);
     }
   }
   const typed = result as { tree: CapturedElement[]; warnings: CaptureWarning[] };
@@ -1686,9 +1687,34 @@ export async function captureElementTreeWithWarnings(
   return { tree: typed.tree, warnings };
   } finally {
     await textPaintProbe?.dispose();
+    await clearWalkMarkers(page);
   }
 }
 
+/**
+ * Remove the correlation attributes the capture walk leaves for the raster
+ * passes. Those passes clean up after themselves only when they have targets
+ * and only in the main document; a marker that survived would be matched by
+ * the next capture, whose marker values restart from zero.
+ */
+async function clearWalkMarkers(page: Page): Promise<void> {
+  await Promise.all(page.frames().map((frame) => frame.evaluate(() => {
+    const markers = [
+      "data-domotion-rid",
+      "data-domotion-backdrop-raster",
+      "data-domotion-url-filter-raster",
+      "data-domotion-line-clamp-probe",
+    ];
+    const roots: Array<Document | ShadowRoot> = [document];
+    for (let root = roots.pop(); root != null; root = roots.pop()) {
+      for (const element of root.querySelectorAll("*")) {
+        for (const marker of markers) element.removeAttribute(marker);
+        if (element.shadowRoot != null) roots.push(element.shadowRoot);
+      }
+    }
+  }).catch(() => undefined)));
+}
+
 /**
  * DM-829 / DM-496: resolve external-file `clip-path` / `mask-image`
  * (`url("./shapes.svg#id")`) refs in the live page before the (synchronous)
-- 
2.43.0


From 60f8d16e3f66399286632235c5654fca0c050615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:35 +0000
Subject: [PATCH 15/44] fix: svg-review exits cleanly when its browser is
 already gone at shutdown

---
 src/cli/review.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/review.ts b/src/cli/review.ts
index 0418855..fe1a264 100644
--- a/src/cli/review.ts
+++ b/src/cli/review.ts
@@ -189,7 +189,7 @@ async function main(): Promise<void> {
       if (closing) return;
       closing = true;
       await server.close();
-      await browser.close();
+      await browser.close().catch(() => { /* ignore */ });
       process.exit(0);
     };
     process.on("SIGINT", () => { void shutdown(); });
-- 
2.43.0


From 9465e4ccc8dbb8de0698dfccaf3c8e5818e16922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:43 +0000
Subject: [PATCH 16/44] fix: pass author font family names to fontconfig as
 names, not pattern syntax

---
 src/render/font-resolution.ts | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/render/font-resolution.ts b/src/render/font-resolution.ts
index e27069f..c3c1c22 100644
--- a/src/render/font-resolution.ts
+++ b/src/render/font-resolution.ts
@@ -8184,11 +8184,21 @@ export function skiaFamilyMatchAcceptable(
   return false;
 }
 
+/**
+ * An author family name as a fontconfig pattern. Skia adds the name to the
+ * pattern verbatim (`FcPatternAddString`); the fc-* tools PARSE it, so `-`, `:`
+ * and `,` would start a size / property / second family (and a leading `-` an
+ * option) unless escaped.
+ */
+function fcFamilyPattern(name: string): string {
+  return name.replace(/[\\\-:,]/g, "\\$&");
+}
+
 /** All family names fontconfig's pick declares (`FC_FAMILY`, every id), the
  *  set Skia walks in `MatchFont`. */
 function fcMatchFamilies(name: string): string[] | null {
   try {
-    const out = execFileSync("fc-match", ["-f", "%{family}", name],
+    const out = execFileSync("fc-match", ["-f", "%{family}", fcFamilyPattern(name)],
       { encoding: "utf8", timeout: 3000, stdio: ["ignore", "pipe", "ignore"] }).trim();
     return out === "" ? null : out.split(",");
   } catch { return null; }
@@ -8204,7 +8214,7 @@ function fcMatchFamilies(name: string): string[] | null {
  *  and three still decide. */
 function fcPostConfigFamily(name: string): string | null {
   try {
-    const out = execFileSync("fc-pattern", ["-c", "-f", "%{family[0]}", name],
+    const out = execFileSync("fc-pattern", ["-c", "-f", "%{family[0]}", fcFamilyPattern(name)],
       { encoding: "utf8", timeout: 3000, stdio: ["ignore", "pipe", "ignore"] }).trim();
     return out === "" ? null : out;
   } catch { return null; }
@@ -8905,7 +8915,7 @@ function matchFamilyCandidateToKey(
       }
     }
     if (hostPlatform() === "linux" && _systemFallbackResolutionEnabled && authorFamilyAvailable(name)) {
-      const matched = fcMatch(name);
+      const matched = fcMatch(fcFamilyPattern(name));
       if (matched != null) {
         const psName = matched.postscriptName ?? matched.path.split("/").pop() ?? name;
         const key = `sysfb:${psName}`;
-- 
2.43.0


From d088c05645abc0692290c53725fa31e5986778df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:43 +0000
Subject: [PATCH 17/44] fix: keep preloaded SVG text inside the scrubber/review
 bootstrap script

---
 src/review/server.ts   | 2 +-
 src/scrubber/server.ts | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/review/server.ts b/src/review/server.ts
index ed5f2bf..a16c2c7 100644
--- a/src/review/server.ts
+++ b/src/review/server.ts
@@ -116,7 +116,7 @@ function renderShell(label: string): string {
   <textarea id="issue-text" readonly></textarea>
   <p class="hint">After clicking <em>File at github.com</em>, paste the text above into the issue body and attach <code>expected.png</code> and <code>actual.svg</code>.</p>
 </div>
-<script>window.__SVG_REVIEW__ = { label: ${JSON.stringify(label)} };</script>
+<script>window.__SVG_REVIEW__ = { label: ${JSON.stringify(label).replace(/</g, "\\u003c")} };</script>
 <script src="/client.js"></script>
 </body></html>`;
 }
diff --git a/src/scrubber/server.ts b/src/scrubber/server.ts
index 5e9f59c..57c5d23 100644
--- a/src/scrubber/server.ts
+++ b/src/scrubber/server.ts
@@ -386,7 +386,7 @@ export async function startScrubberServer(inputs: ScrubberServerInputs): Promise
     name: inputs.initialName ?? null,
     path: inputs.initialPath ?? null,
     review: inputs.review === true,
-  });
+  }).replace(/</g, "\\u003c"); // a `</script>` inside the SVG must not end the bootstrap script
   const shellHtml = SHELL(bootstrap);
   // DM-1445: review mode writes `.ticket` files here (the launch cwd).
   const ticketDir = inputs.ticketDir ?? process.cwd();
-- 
2.43.0


From 9707ab49361960200cf79ca06795ee446482b922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:41 +0000
Subject: [PATCH 18/44] fix: apply the remote-image timeout to the response
 body as well as its headers

---
 src/capture/embed.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/capture/embed.ts b/src/capture/embed.ts
index 00dcdc1..e737b90 100644
--- a/src/capture/embed.ts
+++ b/src/capture/embed.ts
@@ -313,7 +313,7 @@ export async function embedRemoteImages(
     for (let attempt = 0; attempt <= retries; attempt++) {
       if (attempt > 0) await delay(retryBackoffMs);
       try {
-        const res = await fetchWithTimeout(url, timeoutMs);
+        const { res, body: buf } = await fetchWithTimeout(url, timeoutMs);
         if (!res.ok) {
           // 4xx is deterministic — retrying won't help, so bail immediately.
           if (res.status < 500) {
@@ -323,7 +323,6 @@ export async function embedRemoteImages(
           lastFailure = { kind: "status", status: res.status };
           continue;
         }
-        const buf = Buffer.from(await res.arrayBuffer());
         // Prefer Content-Type, fall back to URL-suffix sniff. NYT-style URLs
         // often carry a `?format=pjpg&...` suffix that would defeat extension
         // sniffing on its own.
@@ -357,11 +356,13 @@ function delay(ms: number): Promise<void> {
  * named `RemoteImageTimeoutError` so the warning detail tells consumers
  * "this URL didn't respond in time" rather than the generic AbortError.
  */
-async function fetchWithTimeout(url: string, timeoutMs: number): Promise<Response> {
+async function fetchWithTimeout(url: string, timeoutMs: number): Promise<{ res: Response; body: Buffer }> {
   const controller = new AbortController();
   const timer = setTimeout(() => controller.abort(), timeoutMs);
   try {
-    return await fetch(url, { signal: controller.signal });
+    const res = await fetch(url, { signal: controller.signal });
+    // The body is read under the same deadline: a host can stall after its headers too.
+    return { res, body: res.ok ? Buffer.from(await res.arrayBuffer()) : Buffer.alloc(0) };
   } catch (err) {
     if (err instanceof Error && err.name === "AbortError") {
       const e = new Error(`timed out after ${timeoutMs}ms`);
-- 
2.43.0


From c5b78af883979b1bce2574380b3035c573299d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:41 +0000
Subject: [PATCH 19/44] fix: bound the capture-time SVG-reference,
 background-sizing and dev-login fetches

---
 src/capture/background-image-sizing.ts | 2 +-
 src/capture/index.ts                   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/capture/background-image-sizing.ts b/src/capture/background-image-sizing.ts
index bbb43c9..5d79b63 100644
--- a/src/capture/background-image-sizing.ts
+++ b/src/capture/background-image-sizing.ts
@@ -394,7 +394,7 @@ async function hydrateBackgroundTargets(
       if (embedded != null) return { kind: "svg", text: embedded };
       if (/^data:image\//i.test(url)) return { kind: "bitmap", text: null };
       try {
-        const response = await fetch(url);
+        const response = await fetch(url, { signal: AbortSignal.timeout(timeout) });
         const contentType = response.headers.get("content-type")?.split(";", 1)[0].trim().toLowerCase() ?? "";
         if (contentType === "image/svg+xml") {
           return { kind: "svg", text: await response.text() };
diff --git a/src/capture/index.ts b/src/capture/index.ts
index 00bbd3d..c9a53fb 100644
--- a/src/capture/index.ts
+++ b/src/capture/index.ts
@@ -269,6 +269,7 @@ export class DemoRecorder {
         headers: { "Content-Type": "application/json" },
         body: JSON.stringify({ username: opts.devUser }),
         redirect: "manual",
+        signal: AbortSignal.timeout(30_000),
       });
       if (res.ok) {
         const json = await res.json() as { data: { token: string } };
@@ -1777,7 +1778,7 @@ async function inlineExternalSvgRefs(page: Page): Promise<void> {
         let doc = fileCache.get(hit.absUrl);
         if (doc === undefined) {
           try {
-            const res = await fetch(hit.absUrl);
+            const res = await fetch(hit.absUrl, { signal: AbortSignal.timeout(10_000) });
             doc = res.ok ? new DOMParser().parseFromString(await res.text(), "image/svg+xml") : null;
           } catch { doc = null; }
           fileCache.set(hit.absUrl, doc);
-- 
2.43.0


From 2c965938da8e471f787d39fb0ac1ebc72af2ea54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:41 +0000
Subject: [PATCH 20/44] fix: bound helper downloads, one-shot glyph queries and
 the ffmpeg probe

---
 src/cli/svg-to-video-core.ts     | 2 +-
 src/render/glyph-helper.ts       | 1 +
 src/render/helper-acquire.ts     | 3 ++-
 src/render/icu-helper-acquire.ts | 3 ++-
 4 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cli/svg-to-video-core.ts b/src/cli/svg-to-video-core.ts
index 278bb2b..6ecb24e 100644
--- a/src/cli/svg-to-video-core.ts
+++ b/src/cli/svg-to-video-core.ts
@@ -514,7 +514,7 @@ function containerToMuxer(container: string): string {
 
 /** Locate a usable ffmpeg; throws with per-platform install guidance if absent. */
 export function findFfmpeg(ffmpegPath: string): string {
-  const probe = spawnSync(ffmpegPath, ["-version"], { encoding: "utf-8" });
+  const probe = spawnSync(ffmpegPath, ["-version"], { encoding: "utf-8", timeout: 30_000 });
   if (probe.status === 0) return ffmpegPath;
   throw new Error(
     `ffmpeg not found (tried "${ffmpegPath}"). svg-to-video shells out to ffmpeg; install it and retry:\n` +
diff --git a/src/render/glyph-helper.ts b/src/render/glyph-helper.ts
index 8749422..a41ef25 100644
--- a/src/render/glyph-helper.ts
+++ b/src/render/glyph-helper.ts
@@ -702,6 +702,7 @@ function callHelper(request: HelperRequest): HelperResponse {
   const proc = spawnSync(bin, [], {
     input: JSON.stringify(request),
     encoding: "utf-8",
+    timeout: 30_000,
     maxBuffer: 64 * 1024 * 1024
   });
   profAccum("helper-spawnSync", profNow() - _t0);
diff --git a/src/render/helper-acquire.ts b/src/render/helper-acquire.ts
index 9097579..113e4f8 100644
--- a/src/render/helper-acquire.ts
+++ b/src/render/helper-acquire.ts
@@ -122,7 +122,8 @@ function resolveTarget(opts: AcquireOptions): { asset: string; dest: string; ass
  *  subprocess and the async API; exported so it can be tested against a local
  *  server with explicit URLs. */
 export async function downloadAndInstall(assetUrl: string, shaUrl: string, dest: string): Promise<boolean> {
-  const [assetRes, shaRes] = await Promise.all([fetch(assetUrl), fetch(shaUrl)]);
+  const [assetRes, shaRes] = await Promise.all([assetUrl, shaUrl].map((url) =>
+    fetch(url, { signal: AbortSignal.timeout(DOWNLOAD_TIMEOUT_MS) })));
   if (!assetRes.ok || !shaRes.ok) return false;
   const buf = Buffer.from(await assetRes.arrayBuffer());
   const expected = parseSha256Sidecar(await shaRes.text());
diff --git a/src/render/icu-helper-acquire.ts b/src/render/icu-helper-acquire.ts
index 117b32f..e574754 100644
--- a/src/render/icu-helper-acquire.ts
+++ b/src/render/icu-helper-acquire.ts
@@ -76,7 +76,8 @@ function parseSha(text: string): string {
 
 async function fetchVerified(asset: string): Promise<Buffer | null> {
   const url = `${RELEASE_BASE}/${asset}`;
-  const [body, sha] = await Promise.all([fetch(url), fetch(`${url}.sha256`)]);
+  const [body, sha] = await Promise.all([url, `${url}.sha256`].map(target =>
+    fetch(target, { signal: AbortSignal.timeout(DOWNLOAD_TIMEOUT_MS) })));
   if (!body.ok || !sha.ok) return null;
   const bytes = Buffer.from(await body.arrayBuffer());
   const expected = parseSha(await sha.text());
-- 
2.43.0


From 247f1ab4bc489ff248c77debf79137b33e98d5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:41 +0000
Subject: [PATCH 21/44] fix: bound the web-font readiness wait by the page
 timeout

---
 src/cli/common.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cli/common.ts b/src/cli/common.ts
index c42f322..3fd52f5 100644
--- a/src/cli/common.ts
+++ b/src/cli/common.ts
@@ -220,7 +220,9 @@ export interface ReadyWaitFlags {
 
 export async function applyReadyWaits(page: Page, flags: ReadyWaitFlags): Promise<void> {
   if (flags.fontsReady) {
-    await page.evaluate(() => document.fonts.ready);
+    // waitForFunction, not evaluate: a font that never finishes loading leaves
+    // `fonts.ready` pending, and only waitForFunction has a timeout.
+    await page.waitForFunction(() => document.fonts.ready.then(() => true));
   }
   if (flags.waitFor != null) {
     await page.waitForSelector(flags.waitFor, { state: "visible" });
-- 
2.43.0


From c76c2f84f0960503a74d323b4010077c3a526c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:31 +0000
Subject: [PATCH 22/44] fix: the cursor overlay paints the configured cursor
 color

---
 src/animation/cursor-glyphs.ts  | 10 +++++-----
 src/animation/cursor-overlay.ts |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/animation/cursor-glyphs.ts b/src/animation/cursor-glyphs.ts
index b1ab9e0..640e389 100644
--- a/src/animation/cursor-glyphs.ts
+++ b/src/animation/cursor-glyphs.ts
@@ -137,10 +137,10 @@ export const CURSOR_CATEGORIES: { title: string; values: string[] }[] = [
 /**
  * Render a cursor glyph as an SVG `<g>`, positioned so its hotspot sits at
  * `(x, y)` and the 24-box is scaled to `size` px. Paints a white halo under the
- * dark glyph (filled glyphs use a white fill + dark outline). Returns "" for an
- * empty glyph (`none`).
+ * dark glyph (filled glyphs use a white fill + dark outline); `fill` replaces that
+ * white. Returns "" for an empty glyph (`none`).
  */
-export function cursorGlyphSvg(value: string, x: number, y: number, size = 22, color = "#1a1a1a"): string {
+export function cursorGlyphSvg(value: string, x: number, y: number, size = 22, color = "#1a1a1a", fill = "#fff"): string {
   const g = CURSOR_GLYPHS[value] ?? CURSOR_GLYPHS.default;
   if (g.body === "") return "";
   const s = size / 24;
@@ -149,8 +149,8 @@ export function cursorGlyphSvg(value: string, x: number, y: number, size = 22, c
   const rot = g.rotate ? ` rotate(${g.rotate} 12 12)` : "";
   const inner = g.fill
     // Filled silhouette: white fill + dark outline (classic arrow look).
-    ? `<g fill="#fff" stroke="${color}" stroke-width="1.4" stroke-linejoin="round">${g.body}</g>`
+    ? `<g fill="${fill}" stroke="${color}" stroke-width="1.4" stroke-linejoin="round">${g.body}</g>`
     // Line-art: white halo stroke under the dark stroke.
-    : `<g fill="none" stroke-linecap="round" stroke-linejoin="round"><g stroke="#fff" stroke-width="3.4">${g.body}</g><g stroke="${color}" stroke-width="1.7">${g.body}</g></g>`;
+    : `<g fill="none" stroke-linecap="round" stroke-linejoin="round"><g stroke="${fill}" stroke-width="3.4">${g.body}</g><g stroke="${color}" stroke-width="1.7">${g.body}</g></g>`;
   return `<g transform="translate(${tx.toFixed(2)} ${ty.toFixed(2)}) scale(${s.toFixed(4)})"><g transform="${rot.trim() || "translate(0 0)"}">${inner}</g></g>`;
 }
diff --git a/src/animation/cursor-overlay.ts b/src/animation/cursor-overlay.ts
index 45e1d83..de3eb6a 100644
--- a/src/animation/cursor-overlay.ts
+++ b/src/animation/cursor-overlay.ts
@@ -377,7 +377,7 @@ export function cursorOverlayMarkup(
     const size = 22 * (style.cursorScale || 1);
     const kinds = Array.from(new Set(cursorTimeline.map((e) => e.cursor).filter((c): c is string => c != null)));
     const glyphLayers = kinds.map((kind, gi) => {
-      const glyph = cursorGlyphSvg(kind, 0, 0, size, style.cursorStroke);
+      const glyph = cursorGlyphSvg(kind, 0, 0, size, style.cursorStroke, style.cursorFill);
       const gName = `co-glyph-${uid}-${gi}`;
       kf.push(`@keyframes ${gName}{${cursorTimeline.map((e) => `${pct(e.t / totalDurationMs)}{opacity:${e.cursor === kind ? "1" : "0"}}`).join("")}}`);
       return `      <g opacity="0" style="animation:${gName} ${totalSec}s step-end infinite">
@@ -392,7 +392,7 @@ ${glyphLayers}
     const visName = `co-vis-${uid}`;
     kf.push(`@keyframes ${visName}{${positions.map((p) => `${pct(p.t / totalDurationMs)}{opacity:${p.visible ? "1" : "0"}}`).join("")}}`);
     pointerGroup = `    <g class="cursor-arrow" opacity="0" style="animation:${posAnim},${visName} ${totalSec}s step-end infinite">
-      ${macosCursorPath(style.cursorScale)}
+      ${macosCursorPath(style.cursorScale, style.cursorFill)}
     </g>`;
   }
 
@@ -458,13 +458,13 @@ function buildPulseFragment(c: ResolvedClick, idx: number, uid: string, kf: stri
 }
 
 /** macOS-style cursor arrow path. The hot point (0, 0) sits at the tip. */
-function macosCursorPath(scale: number): string {
+function macosCursorPath(scale: number, fill: string): string {
   // Path approximates the macOS pointer: tip at (0, 0), tail extends down and
   // right with a small notch. Stroked white with a thin black outline so it
   // reads on any background.
   const d = "M 0 0 L 0 16 L 4 12 L 7 18 L 9 17 L 6 11 L 12 11 Z";
   const transform = scale !== 1 ? ` transform="scale(${num(scale)})"` : "";
-  return `<path d="${d}" fill="rgb(255,255,255)" stroke="rgb(0,0,0)" stroke-width="1" stroke-linejoin="round"${transform} />`;
+  return `<path d="${d}" fill="${fill}" stroke="rgb(0,0,0)" stroke-width="1" stroke-linejoin="round"${transform} />`;
 }
 
 function num(n: number): string {
-- 
2.43.0


From e386a0945d4e080924b1a110410c63fdf37f9143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:31 +0000
Subject: [PATCH 23/44] fix: composite warnings name the layer by its label

---
 src/animation/composite.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/animation/composite.ts b/src/animation/composite.ts
index 538abf4..924671d 100644
--- a/src/animation/composite.ts
+++ b/src/animation/composite.ts
@@ -99,7 +99,7 @@ export interface CompositeLayer {
    * `composeCompositeConfig` for cast layers; leave off for self-contained SVGs.
    */
   deferFonts?: boolean;
-  /** Optional label for ids/debugging (sanitized). */
+  /** Optional label naming the layer in warnings. */
   label?: string;
 }
 
@@ -197,7 +197,7 @@ export function composeAnimatedLayers(layers: CompositeLayer[], opts: ComposeLay
   const warnings: string[] = [];
   layers.forEach((layer, i) => {
     for (const v of findFillBoxInClipOrMask(layer.svg)) {
-      const w = `composeAnimatedLayers: layer ${i} — ${v}. This is ignored by Firefox (DM-1529); position the clip/mask transform with an explicit userspace transform-origin instead.`;
+      const w = `composeAnimatedLayers: layer ${i}${layer.label != null ? ` (${layer.label})` : ""} — ${v}. This is ignored by Firefox (DM-1529); position the clip/mask transform with an explicit userspace transform-origin instead.`;
       warnings.push(w);
       console.warn(w);
     }
-- 
2.43.0


From bf19979dfc5ab11d1509ad7bd111c9a0dd1da80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:36 +0000
Subject: [PATCH 24/44] fix: reject surplus command-line arguments instead of
 ignoring them

---
 src/cli/composite.ts  | 1 +
 src/cli/scrubber.ts   | 2 ++
 src/cli/storyboard.ts | 1 +
 src/cli/term.ts       | 2 +-
 4 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cli/composite.ts b/src/cli/composite.ts
index 10af956..505cd60 100644
--- a/src/cli/composite.ts
+++ b/src/cli/composite.ts
@@ -220,6 +220,7 @@ export async function runComposite(argv: string[]): Promise<void> {
     if (!values.help) process.exit(2);
     return;
   }
+  if (positionals.length > 1) throw new Error(`composite: unexpected extra argument "${positionals[1]}"`);
   const configPath = resolve(positionals[0]);
   let raw: unknown;
   try {
diff --git a/src/cli/scrubber.ts b/src/cli/scrubber.ts
index 9a04637..aa76c87 100644
--- a/src/cli/scrubber.ts
+++ b/src/cli/scrubber.ts
@@ -65,6 +65,8 @@ async function main(): Promise<void> {
   });
   if (values.help) { process.stdout.write(HELP); return; }
 
+  if (positionals.length > 1) cliFail("svg-scrubber", `unexpected extra argument "${positionals[1]}"`, "usage");
+
   let initialSvg: string | undefined;
   let initialName: string | undefined;
   let initialPath: string | undefined;
diff --git a/src/cli/storyboard.ts b/src/cli/storyboard.ts
index b6503a0..a92bbb9 100644
--- a/src/cli/storyboard.ts
+++ b/src/cli/storyboard.ts
@@ -517,6 +517,7 @@ export async function runStoryboard(argv: string[]): Promise<void> {
     if (!values.help) process.exit(2);
     return;
   }
+  if (positionals.length > 1) throw new Error(`storyboard: unexpected extra argument "${positionals[1]}"`);
   const configPath = resolve(positionals[0]);
   let raw: unknown;
   try {
diff --git a/src/cli/term.ts b/src/cli/term.ts
index d26a460..3e0d185 100644
--- a/src/cli/term.ts
+++ b/src/cli/term.ts
@@ -94,7 +94,7 @@ export async function runTerm(argv: string[]): Promise<void> {
       "tail-ms": { type: "string" },
       help: { type: "boolean", short: "h" },
     },
-    allowPositionals: true,
+    allowPositionals: false,
   });
 
   const live = command.length > 0;
-- 
2.43.0


From 81cd8fbbc8607d7715e4a0df2e8b8381675ef22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:12 +0000
Subject: [PATCH 25/44] fix: restore projective isolation styles newest first

`mask` and `-webkit-mask` are one property: the second save records the
neutralised value, so replaying oldest first left mask: none !important on the
page's ancestors after the capture.
---
 src/capture/index.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/capture/index.ts b/src/capture/index.ts
index c9a53fb..00207dd 100644
--- a/src/capture/index.ts
+++ b/src/capture/index.ts
@@ -1867,7 +1867,9 @@ export async function rasterizeProjectiveSurfaces(
           priority: string;
         }>;
       };
-      for (const item of host.__domotionProjectiveVisibilityRestore ?? []) {
+      // Newest first: `mask` / `-webkit-mask` name one property, so the second
+      // of the pair recorded the neutralised value, not the page's own.
+      for (const item of (host.__domotionProjectiveVisibilityRestore ?? []).reverse()) {
         const html = item.element as HTMLElement;
         if (item.value === "") html.style.removeProperty(item.property);
         else html.style.setProperty(item.property, item.value, item.priority);
-- 
2.43.0


From 57ec6e35d27e0292f9ff7b96da2c3186362f3b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:58 +0000
Subject: [PATCH 26/44] fix: escape form-control text, list markers and font
 stacks for XML

The inline escapers left C0 controls / U+FFFE in the text and & or < in a
font-family, either of which makes the whole SVG unparseable.
---
 src/render/element-tree-to-svg.ts |  6 +++---
 src/render/form-controls.ts       | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/render/element-tree-to-svg.ts b/src/render/element-tree-to-svg.ts
index 622f2ec..3b87c3a 100644
--- a/src/render/element-tree-to-svg.ts
+++ b/src/render/element-tree-to-svg.ts
@@ -728,7 +728,7 @@ function paintSyntheticListMarker(
     const renderLabel = outside ? label : collapseMarkerWhitespace(label);
     const mx = contentEdge;
     const anchor = outside ? "end" : "start";
-    const escLabel = renderLabel.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
+    const escLabel = esc(renderLabel);
     // DM-1258: outside markers preserve their suffix spaces (white-space: pre);
     // inside markers fold into the content line, so let SVG collapse there.
     const xmlSpace = outside ? ' xml:space="preserve"' : "";
@@ -2564,7 +2564,7 @@ function paintTruncationMarker(el: CapturedElement, textColor: ReturnType<typeof
     const ty = (el.textTop != null && el.fontAscent != null)
       ? el.textTop + el.fontAscent
       : el.y + fontSizePx * 1.1;
-    const escMarker = marker.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
+    const escMarker = esc(marker);
     // Paint a background rect under the marker so the overflowing text
     // behind it gets visually erased — mirrors Chrome where the
     // truncated text doesn't bleed past the marker. Extend the rect all
@@ -5222,7 +5222,7 @@ function renderElement(state: RenderState, el: CapturedElement, depth: number, p
   // Inner anim-class wrapper sits INSIDE any visibility/transform group so
   // the merger's class (added on the outer group) and our anim class can
   // each carry their own `animation` shorthand without clobbering.
-  if (animClass !== "") svgParts.push(`${indent}<g class="${animClass}">`);
+  if (animClass !== "") svgParts.push(`${indent}<g class="${esc(animClass)}">`);
   const wrapperContentStart = svgParts.length;
 
   // A negative positioned pseudo on a host that does not itself establish a
diff --git a/src/render/form-controls.ts b/src/render/form-controls.ts
index c04e08a..81ef769 100644
--- a/src/render/form-controls.ts
+++ b/src/render/form-controls.ts
@@ -1197,7 +1197,7 @@ function renderDatePicker(el: CapturedElement, indent: string): string {
   // the canonical ISO form (`2026-04-21`). DM-263.
   const display = formatDateInputDisplay(t, val);
   if (display !== "") {
-    parts.push(`${indent}<text x="${r(tx)}" y="${r(ty)}" font-size="${r(fontSize)}" font-family="ui-monospace, Menlo, monospace" fill="${textFill}">${display.replace(/[&<>]/g, (c) => ({"&":"&amp;","<":"&lt;",">":"&gt;"}[c]!))}</text>`);
+    parts.push(`${indent}<text x="${r(tx)}" y="${r(ty)}" font-size="${r(fontSize)}" font-family="ui-monospace, Menlo, monospace" fill="${textFill}">${esc(display)}</text>`);
   }
   // Picker icon on the right edge: calendar for date / month / week / datetime-local,
   // clock for time. Chrome paints these monochrome at ~14px in the input's
@@ -1505,8 +1505,8 @@ function renderListbox(el: CapturedElement, indent: string): string {
     const fontStyleAttr = fontStyle !== "normal" ? ` font-style="${fontStyle}"` : "";
     const fontWeightAttr = fontWeight !== "normal" && fontWeight !== "400" ? ` font-weight="${fontWeight}"` : "";
     const opacityAttr = o.disabled ? ` opacity="0.5"` : "";
-    const escaped = o.text.replace(/[&<>]/g, (c) => ({ "&": "&amp;", "<": "&lt;", ">": "&gt;" }[c]!));
-    parts.push(`${indent}<text x="${r(tx)}" y="${r(ty)}" font-size="${r(optionFontSize)}" font-family="${(o.fontFamily ?? fontFamily).replace(/"/g, "&quot;")}" fill="${o.color ?? color}"${fontStyleAttr}${fontWeightAttr}${opacityAttr}>${escaped}</text>`);
+    const escaped = esc(o.text);
+    parts.push(`${indent}<text x="${r(tx)}" y="${r(ty)}" font-size="${r(optionFontSize)}" font-family="${esc(o.fontFamily ?? fontFamily)}" fill="${o.color ?? color}"${fontStyleAttr}${fontWeightAttr}${opacityAttr}>${escaped}</text>`);
   }
   return parts.join("\n");
 }
@@ -1534,8 +1534,8 @@ function renderSelectChevron(el: CapturedElement, indent: string, defCtx?: DefCt
     const bwL = parseFloat(el.styles.borderLeftWidth ?? "0") || 0;
     const tx = el.x + bwL + padL;
     const ty = el.y + el.height / 2 + fontSize * 0.35;
-    const escaped = display.replace(/[&<>]/g, (c) => ({ "&": "&amp;", "<": "&lt;", ">": "&gt;" }[c]!));
-    parts.push(`${indent}<text x="${r(tx)}" y="${r(ty)}" font-size="${r(fontSize)}" font-family="${fontFamily.replace(/"/g, "&quot;")}" fill="${color}">${escaped}</text>`);
+    const escaped = esc(display);
+    parts.push(`${indent}<text x="${r(tx)}" y="${r(ty)}" font-size="${r(fontSize)}" font-family="${esc(fontFamily)}" fill="${color}">${escaped}</text>`);
   }
   // Chromium macOS default: small down-chevron near the right edge. Skip
   // when the page set appearance: none — the chevron is the page's
-- 
2.43.0


From e96f1053320a4b3fa1132d8898de873e2d03f41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:14 +0000
Subject: [PATCH 27/44] fix: device chrome labels drop control characters XML
 forbids

---
 src/render/device-chrome.ts | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/render/device-chrome.ts b/src/render/device-chrome.ts
index 66c9fdf..1684c8a 100644
--- a/src/render/device-chrome.ts
+++ b/src/render/device-chrome.ts
@@ -21,6 +21,8 @@
  * the `domotion capture --chrome` flag) crib from.
  */
 
+import { esc } from "./format.js";
+
 /** Devices the `--chrome` flag understands. */
 export const DEVICE_CHROMES = ["phone", "browser", "window"] as const;
 export type DeviceChrome = (typeof DEVICE_CHROMES)[number];
@@ -89,14 +91,6 @@ export interface FramedSvg {
 const MONO = "ui-monospace, 'SF Mono', Menlo, monospace";
 const SANS = "-apple-system, system-ui, 'Segoe UI', sans-serif";
 
-function escapeXml(s: string): string {
-  return s
-    .replace(/&/g, "&amp;")
-    .replace(/</g, "&lt;")
-    .replace(/>/g, "&gt;")
-    .replace(/"/g, "&quot;");
-}
-
 /**
  * Strip the outer `<svg …>…</svg>` wrapper off a complete SVG document, leaving
  * the body markup so it can be re-nested at an offset. Tolerates a leading XML
@@ -281,12 +275,12 @@ function windowFrame(
       lockGlyph(pillX + q(12), cy, p.glyph, q);
     if (label != null && label !== "") {
       barContent +=
-        `<text x="${pillX + q(28)}" y="${cy + q(4)}" font-family="${MONO}" font-size="${q(12)}" fill="${p.glyph}">${escapeXml(label)}</text>`;
+        `<text x="${pillX + q(28)}" y="${cy + q(4)}" font-family="${MONO}" font-size="${q(12)}" fill="${p.glyph}">${esc(label)}</text>`;
     }
   } else if (label != null && label !== "") {
     // Centered window title.
     barContent +=
-      `<text x="${outerW / 2}" y="${BAR / 2 + q(4)}" text-anchor="middle" font-family="${SANS}" font-size="${q(13)}" font-weight="600" fill="${p.glyph}">${escapeXml(label)}</text>`;
+      `<text x="${outerW / 2}" y="${BAR / 2 + q(4)}" text-anchor="middle" font-family="${SANS}" font-size="${q(13)}" font-weight="600" fill="${p.glyph}">${esc(label)}</text>`;
   }
 
   const svg =
-- 
2.43.0


From 11eac71b4fa5a669abc06557d269bc6441198a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:30 +0000
Subject: [PATCH 28/44] fix: captured SVG markup names no-break spaces by
 number, not by an HTML entity

---
 src/capture/script.generated.ts          | 2 +-
 src/capture/script/utils.ts              | 5 +++++
 src/capture/script/walker/inline-svg.ts  | 3 ++-
 src/capture/script/walker/masks-clips.ts | 8 ++++----
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/capture/script.generated.ts b/src/capture/script.generated.ts
index b127330..ed8f259 100644
--- a/src/capture/script.generated.ts
+++ b/src/capture/script.generated.ts
@@ -4,4 +4,4 @@
 // Run `npm run build:capture-script` (or any of the npm scripts that depend on
 // it: build, typecheck, test, capture, demos:*) to regenerate.
 
-export const CAPTURE_SCRIPT: string = "\n(() => {\n// src/capture/script/color-norm.ts\nvar createColorNorm = () => {\n  const probe = document.createElement(\"div\");\n  probe.style.position = \"absolute\";\n  probe.style.visibility = \"hidden\";\n  document.body.appendChild(probe);\n  const normColor = (c, elColor) => {\n    if (c == null || c === \"\" || c === \"transparent\" || c === \"currentcolor\" || c === \"auto\") return c;\n    if (/^(rgba?\\(|#[0-9a-f]{3,8}$)/i.test(c)) return c;\n    var probeIn = c;\n    if (elColor != null && elColor !== \"\" && /\\bcurrentcolor\\b/i.test(c)) {\n      probeIn = c.replace(/\\bcurrentcolor\\b/gi, elColor);\n    }\n    try {\n      probe.style.color = \"\";\n      probe.style.color = \"color-mix(in srgb, \" + probeIn + \" 100%, transparent 0%)\";\n      const v = getComputedStyle(probe).color;\n      if (v != null && v !== \"\") return v;\n    } catch (e) {\n    }\n    return c;\n  };\n  const normGradientColors = (text, elColor) => {\n    if (text == null || text === \"\" || text === \"none\") return text;\n    const fnRe = /\\b(oklch|oklab|lab|lch|hwb|hsl|hsla|color|color-mix)\\(/gi;\n    var out = \"\";\n    var i = 0;\n    while (i < text.length) {\n      fnRe.lastIndex = i;\n      const m = fnRe.exec(text);\n      if (m == null) {\n        out += text.slice(i);\n        break;\n      }\n      out += text.slice(i, m.index);\n      var depth = 1;\n      var j = m.index + m[0].length;\n      while (j < text.length && depth > 0) {\n        const ch = text[j++];\n        if (ch === \"(\") depth++;\n        else if (ch === \")\") depth--;\n      }\n      const call = text.slice(m.index, j);\n      out += normColor(call, elColor);\n      i = j;\n    }\n    return out;\n  };\n  const dispose = () => {\n    probe.remove();\n  };\n  return { normColor, normGradientColors, dispose };\n};\n\n// src/capture/script/emoji-detect.ts\nvar RE_EMOJI = /\\p{Emoji}/u;\nvar RE_EMOJI_PRESENTATION = /\\p{Emoji_Presentation}/u;\nvar RE_EMOJI_MODIFIER_BASE = /\\p{Emoji_Modifier_Base}/u;\nvar RE_EMOJI_MODIFIER = /\\p{Emoji_Modifier}/u;\nvar RE_REGIONAL_INDICATOR = /\\p{Regional_Indicator}/u;\nvar emojiCategory = (cp) => {\n  const ch = String.fromCodePoint(cp);\n  if (cp <= 127) return cp === 35 || cp === 42 || cp >= 48 && cp <= 57 ? \"keycap\" : \"other\";\n  if (cp === 8419) return \"keycap-mark\";\n  if (cp === 8416) return \"circle-backslash\";\n  if (cp === 8205) return \"zwj\";\n  if (cp === 65038) return \"vs15\";\n  if (cp === 65039) return \"vs16\";\n  if (cp === 127988) return \"tag-base\";\n  if (cp >= 917536 && cp <= 917630) return \"tag-sequence\";\n  if (cp === 917631) return \"tag-term\";\n  if (RE_EMOJI_MODIFIER_BASE.test(ch)) return \"modifier-base\";\n  if (RE_EMOJI_MODIFIER.test(ch)) return \"modifier\";\n  if (RE_REGIONAL_INDICATOR.test(ch)) return \"regional-indicator\";\n  if (RE_EMOJI_PRESENTATION.test(ch)) return \"emoji-default\";\n  if (RE_EMOJI.test(ch)) return \"text-default\";\n  return \"other\";\n};\nvar isAnyEmoji = (cat) => cat === \"text-default\" || cat === \"emoji-default\" || cat === \"keycap\" || cat === \"modifier-base\" || cat === \"tag-base\";\nvar scanEmojiPresentation = (text, classify = emojiCategory) => {\n  const units = [];\n  for (let i2 = 0; i2 < text.length; ) {\n    const cp = text.codePointAt(i2);\n    const ch = String.fromCodePoint(cp);\n    units.push({ start: i2, end: i2 + ch.length, cat: classify(cp) });\n    i2 += ch.length;\n  }\n  const spans = [];\n  const push = (startUnit, endUnit, presentation, hasVs) => spans.push({\n    start: units[startUnit].start,\n    end: units[endUnit - 1].end,\n    presentation,\n    hasVs\n  });\n  const elementEnd = (at) => {\n    if (at >= units.length || !isAnyEmoji(units[at].cat)) return at;\n    if (at + 1 < units.length && units[at + 1].cat === \"vs16\") return at + 2;\n    if (units[at].cat === \"modifier-base\" && at + 1 < units.length && units[at + 1].cat === \"modifier\") return at + 2;\n    return at + 1;\n  };\n  let i = 0;\n  while (i < units.length) {\n    const c = units[i].cat;\n    if (isAnyEmoji(c) && i + 1 < units.length && units[i + 1].cat === \"vs15\") {\n      let end2 = i + 2;\n      if (c === \"keycap\" && end2 < units.length && units[end2].cat === \"keycap-mark\") end2++;\n      push(i, end2, \"text\", true);\n      i = end2;\n      continue;\n    }\n    let end = 0;\n    let hasVs = false;\n    if (isAnyEmoji(c) && i + 1 < units.length && units[i + 1].cat === \"vs16\") {\n      end = i + 2;\n      hasVs = true;\n      if (c === \"keycap\" && end < units.length && units[end].cat === \"keycap-mark\") end++;\n    } else if (c === \"modifier-base\" && i + 1 < units.length && units[i + 1].cat === \"modifier\") {\n      end = i + 2;\n    } else if (c === \"regional-indicator\" && i + 1 < units.length && units[i + 1].cat === \"regional-indicator\") {\n      end = i + 2;\n    } else if (c === \"tag-base\") {\n      let j = i + 1;\n      while (j < units.length && units[j].cat === \"tag-sequence\") j++;\n      if (j > i + 1 && j < units.length && units[j].cat === \"tag-term\") end = j + 1;\n      else end = i + 1;\n    } else if (isAnyEmoji(c) && i + 1 < units.length && units[i + 1].cat === \"circle-backslash\") {\n      end = i + 2;\n    } else if (c === \"emoji-default\" || c === \"tag-base\" || c === \"modifier-base\") {\n      end = i + 1;\n    }\n    const firstElementEnd = elementEnd(i);\n    if (firstElementEnd > i) {\n      let j = firstElementEnd;\n      let joined = false;\n      while (j + 1 < units.length && units[j].cat === \"zwj\") {\n        const nextEnd = elementEnd(j + 1);\n        if (nextEnd === j + 1) break;\n        joined = true;\n        j = nextEnd;\n      }\n      if (joined) {\n        end = j;\n        hasVs = false;\n      }\n    }\n    if (end > i) {\n      push(i, end, \"emoji\", hasVs);\n      i = end;\n      continue;\n    }\n    i++;\n  }\n  return spans;\n};\nvar createEmojiDetect = () => {\n  const rasterCandidates = (text, fontVariantEmoji = \"normal\") => {\n    const spans = scanEmojiPresentation(text);\n    if (fontVariantEmoji != null && fontVariantEmoji !== \"normal\" && fontVariantEmoji !== \"unicode\") {\n      const covered = /* @__PURE__ */ new Set();\n      for (const span of spans) for (let i = span.start; i < span.end; i++) covered.add(i);\n      for (let i = 0; i < text.length; ) {\n        const cp = text.codePointAt(i);\n        const ch = String.fromCodePoint(cp);\n        const next = i + ch.length < text.length ? text.codePointAt(i + ch.length) : 0;\n        if (!covered.has(i) && RE_EMOJI.test(ch) && next !== 65038 && next !== 65039) {\n          spans.push({ start: i, end: i + ch.length, presentation: fontVariantEmoji, hasVs: false });\n        } else if (fontVariantEmoji === \"text\") {\n          const span = spans.find((s) => s.start === i);\n          if (span != null && !span.hasVs) span.presentation = \"text\";\n        }\n        i += ch.length;\n      }\n    }\n    const byStart = new Map(spans.map((span) => [span.start, span]));\n    const candidates = [];\n    const segmenter = typeof Intl !== \"undefined\" && Intl.Segmenter != null ? new Intl.Segmenter(void 0, { granularity: \"grapheme\" }) : null;\n    if (segmenter != null) {\n      for (const part of segmenter.segment(text)) {\n        if (/^\\s+$/u.test(part.segment)) continue;\n        const source = byStart.get(part.index);\n        candidates.push(source ?? { start: part.index, end: part.index + part.segment.length, presentation: \"text\", hasVs: false });\n      }\n    } else {\n      for (let i = 0; i < text.length; ) {\n        const cp = text.codePointAt(i);\n        const ch = String.fromCodePoint(cp);\n        if (!/^\\s+$/u.test(ch)) candidates.push(byStart.get(i) ?? { start: i, end: i + ch.length, presentation: \"text\", hasVs: false });\n        i += ch.length;\n      }\n    }\n    return candidates;\n  };\n  const textNeedsRaster = (text, _font = \"\", fontVariantEmoji = \"normal\") => {\n    const spans = scanEmojiPresentation(text);\n    if (fontVariantEmoji === \"emoji\") return spans.length > 0 || [...text].some((ch) => RE_EMOJI.test(ch));\n    return spans.length > 0;\n  };\n  return { rasterCandidates, textNeedsRaster };\n};\n\n// src/capture/script/dotted-circle-detect.ts\nvar dottedCircleInkMatches = (bare, comb) => {\n  const ratio = comb.cnt > 0 ? bare.cnt / comb.cnt : 0;\n  let union = 0, xor = 0;\n  for (let i = 0; i < bare.mask.length; i++) {\n    if (bare.mask[i] || comb.mask[i]) union++;\n    if (bare.mask[i] !== comb.mask[i]) xor++;\n  }\n  const mismatch = union > 0 ? xor / union : 1;\n  return bare.cnt > 20 && ratio > 0.9 && comb.w <= bare.w * 1.25 && mismatch < 0.12;\n};\nvar isDottedCircleProbeCandidate = (ch) => /\\p{M}|\\p{Lo}|\\p{Lm}/u.test(ch);\nvar createDottedCircleDetect = () => {\n  let _cv = null;\n  let _ctx = null;\n  const _cache = /* @__PURE__ */ new Map();\n  const inkStats = (s, font) => {\n    if (_ctx == null) {\n      _cv = document.createElement(\"canvas\");\n      _cv.width = 96;\n      _cv.height = 64;\n      _ctx = _cv.getContext(\"2d\", { willReadFrequently: true });\n    }\n    _ctx.clearRect(0, 0, 96, 64);\n    _ctx.fillStyle = \"#000\";\n    _ctx.textBaseline = \"middle\";\n    _ctx.font = \"32px \" + font;\n    _ctx.fillText(s, 40, 32);\n    const data = _ctx.getImageData(0, 0, 96, 64).data;\n    let cnt = 0, minx = 1e9, maxx = -1;\n    const mask = new Uint8Array(96 * 64);\n    for (let y = 0; y < 64; y++) {\n      for (let x = 0; x < 96; x++) {\n        if (data[(y * 96 + x) * 4 + 3] > 20) {\n          mask[y * 96 + x] = 1;\n          cnt++;\n          if (x < minx) minx = x;\n          if (x > maxx) maxx = x;\n        }\n      }\n    }\n    return { cnt, w: cnt > 0 ? maxx - minx + 1 : 0, mask };\n  };\n  const markGetsDottedCircle = (cp, ch, font) => {\n    if (font == null || font === \"\") return false;\n    if (!isDottedCircleProbeCandidate(ch)) return false;\n    const key = cp + \"|\" + font;\n    const hit = _cache.get(key);\n    if (hit !== void 0) return hit;\n    let res = false;\n    try {\n      const bare = inkStats(ch, font);\n      const comb = inkStats(\"\\u25CC\" + ch, font);\n      res = dottedCircleInkMatches(bare, comb);\n    } catch (e) {\n      res = false;\n    }\n    _cache.set(key, res);\n    return res;\n  };\n  return { markGetsDottedCircle };\n};\n\n// src/capture/script/font-metrics.ts\nvar createFontMetrics = () => {\n  const metricsCache = /* @__PURE__ */ new Map();\n  const localFaceMap = /* @__PURE__ */ new Map();\n  const probeWidthCS = (familyExpr, weight, style) => {\n    const span = document.createElement(\"span\");\n    span.style.cssText = \"position:absolute;left:-9999px;top:-9999px;visibility:hidden;font-size:16px;line-height:1;white-space:pre\";\n    span.style.fontFamily = familyExpr;\n    span.style.fontWeight = weight;\n    span.style.fontStyle = style;\n    span.textContent = \"mIw0\";\n    document.body.appendChild(span);\n    const w = span.getBoundingClientRect().width;\n    document.body.removeChild(span);\n    return w;\n  };\n  for (const sheet of Array.from(document.styleSheets)) {\n    let cssRules;\n    try {\n      cssRules = sheet.cssRules;\n    } catch (e) {\n      continue;\n    }\n    for (const rule of Array.from(cssRules)) {\n      if (rule.constructor.name !== \"CSSFontFaceRule\") continue;\n      const r = rule;\n      const family = r.style.getPropertyValue(\"font-family\").trim().replace(/^[\"']|[\"']$/g, \"\").toLowerCase();\n      const weight = r.style.getPropertyValue(\"font-weight\") || \"400\";\n      const styleDesc = r.style.getPropertyValue(\"font-style\") || \"normal\";\n      const src = r.style.getPropertyValue(\"src\");\n      if (family === \"\" || /url\\(/.test(src)) continue;\n      const matches = src.match(/local\\(\\s*[\"']?[^\"')]+?[\"']?\\s*\\)/g);\n      if (matches == null) continue;\n      const locals = [];\n      for (const mm of matches) {\n        const inner = /local\\(\\s*[\"']?([^\"')]+?)[\"']?\\s*\\)/.exec(mm);\n        if (inner != null) locals.push(inner[1].trim());\n      }\n      if (locals.length === 0) continue;\n      const stripVariant = (n) => n.replace(/\\s+(Bold Italic|Italic Bold|Bold|Italic|Oblique|Regular|Light|Medium|Semibold|Black)$/i, \"\").trim();\n      let resolved = null;\n      const aliasW = probeWidthCS('\"' + family + '\"', weight, styleDesc);\n      for (const cand of locals) {\n        const candW = probeWidthCS('\"' + stripVariant(cand) + '\"', weight, styleDesc);\n        if (Math.abs(candW - aliasW) < 0.05) {\n          resolved = cand;\n          break;\n        }\n      }\n      if (resolved == null) resolved = locals[0];\n      if (!localFaceMap.has(family)) localFaceMap.set(family, resolved);\n    }\n  }\n  const substituteAliasedFamilies = (ff) => {\n    if (localFaceMap.size === 0) return ff;\n    const parts = ff.split(\",\").map((s) => s.trim());\n    let changed = false;\n    const out = parts.map((p) => {\n      const bare = p.replace(/^[\"']|[\"']$/g, \"\").toLowerCase();\n      const local = localFaceMap.get(bare);\n      if (local == null) return p;\n      changed = true;\n      return /\\s/.test(local) ? '\"' + local + '\"' : local;\n    });\n    return changed ? out.join(\", \") : ff;\n  };\n  const measureFontMetrics = (cs, fontSizeOverride) => {\n    const fs = cs.fontStyle || \"normal\";\n    const fw = cs.fontWeight || \"400\";\n    const fz = fontSizeOverride || cs.fontSize || \"14px\";\n    const ff = substituteAliasedFamilies(cs.fontFamily || \"sans-serif\");\n    const key = fs + \"|\" + fw + \"|\" + fz + \"|\" + ff;\n    let v = metricsCache.get(key);\n    if (v != null) return v;\n    const c = document.createElement(\"canvas\");\n    const ctx = c.getContext(\"2d\");\n    ctx.font = fs + \" \" + fw + \" \" + fz + \" \" + ff;\n    const m = ctx.measureText(\"Mxgp\");\n    v = { ascent: m.fontBoundingBoxAscent, descent: m.fontBoundingBoxDescent };\n    metricsCache.set(key, v);\n    return v;\n  };\n  return { measureFontMetrics, substituteAliasedFamilies };\n};\n\n// src/capture/script/utils.ts\nvar isUnsetCssValue = (v) => v === \"\" || v === \"initial\" || v === \"inherit\" || v === \"unset\" || v === \"revert\";\nvar hasCssValue = (v) => v != null && v !== \"\" && v !== \"none\";\nvar extractCssUrl = (value) => {\n  const u = /\\burl\\(\\s*(?:\"((?:\\\\.|[^\"\\\\])*)\"|'((?:\\\\.|[^'\\\\])*)'|([^)\\s]+))\\s*\\)/.exec(value || \"\");\n  if (u == null) return null;\n  const raw = u[1] || u[2] || u[3] || \"\";\n  if (raw === \"\") return null;\n  return raw.replace(/\\\\(.)/g, \"$1\");\n};\nvar sideWidths = (cs, prop, suffix) => ({\n  top: parseFloat(cs[prop + \"Top\" + suffix]) || 0,\n  right: parseFloat(cs[prop + \"Right\" + suffix]) || 0,\n  bottom: parseFloat(cs[prop + \"Bottom\" + suffix]) || 0,\n  left: parseFloat(cs[prop + \"Left\" + suffix]) || 0\n});\nvar NAMED_COLOR_ALTERNATION = \"lightgoldenrodyellow|mediumspringgreen|mediumaquamarine|mediumslateblue|mediumturquoise|mediumvioletred|blanchedalmond|cornflowerblue|darkolivegreen|lightslategray|lightslategrey|lightsteelblue|mediumseagreen|darkgoldenrod|darkslateblue|darkslategray|darkslategrey|darkturquoise|lavenderblush|lightseagreen|palegoldenrod|paleturquoise|palevioletred|rebeccapurple|antiquewhite|darkseagreen|lemonchiffon|lightskyblue|mediumorchid|mediumpurple|midnightblue|darkmagenta|deepskyblue|floralwhite|forestgreen|greenyellow|lightsalmon|lightyellow|navajowhite|saddlebrown|springgreen|yellowgreen|aquamarine|blueviolet|chartreuse|darkorange|darkorchid|darksalmon|darkviolet|dodgerblue|ghostwhite|lightcoral|lightgreen|mediumblue|papayawhip|powderblue|sandybrown|whitesmoke|aliceblue|burlywood|cadetblue|chocolate|darkgreen|darkkhaki|firebrick|gainsboro|goldenrod|indianred|lawngreen|lightblue|lightcyan|lightgray|lightgrey|lightpink|limegreen|mintcream|mistyrose|olivedrab|orangered|palegreen|peachpuff|rosybrown|royalblue|slateblue|slategray|slategrey|steelblue|turquoise|cornsilk|darkblue|darkcyan|darkgray|darkgrey|deeppink|honeydew|lavender|moccasin|seagreen|seashell|crimson|darkred|dimgray|dimgrey|fuchsia|hotpink|magenta|oldlace|skyblue|thistle|bisque|indigo|maroon|orange|orchid|purple|salmon|sienna|silver|tomato|violet|yellow|azure|beige|black|brown|coral|green|ivory|khaki|linen|olive|wheat|white|aqua|blue|cyan|gold|gray|grey|lime|navy|peru|pink|plum|snow|teal|red|tan|transparent|currentColor\";\nvar firstColorRe = new RegExp(\n  `(#[0-9a-fA-F]{3,8}|rgba?\\\\([^)]*\\\\)|hsla?\\\\([^)]*\\\\)|\\\\b(?:${NAMED_COLOR_ALTERNATION})\\\\b)`\n);\nvar _TEXT_INPUT_TYPES = /* @__PURE__ */ new Set([\"text\", \"search\", \"url\", \"tel\", \"email\", \"password\", \"number\"]);\nvar resolveElementCursor = (el, cs) => {\n  let c = (cs.cursor || \"auto\").trim();\n  if (c.indexOf(\"url(\") !== -1) {\n    const parts = c.split(\",\");\n    c = parts[parts.length - 1].trim();\n  }\n  if (c !== \"auto\") return c;\n  const tag = el.tagName;\n  const editable = el.isContentEditable === true || tag === \"TEXTAREA\" || tag === \"INPUT\" && _TEXT_INPUT_TYPES.has((el.getAttribute(\"type\") || \"text\").toLowerCase());\n  let selectableText = false;\n  if (!editable) {\n    const us = cs.userSelect || cs.webkitUserSelect || \"\";\n    if (us !== \"none\") {\n      for (let i = 0; i < el.childNodes.length; i++) {\n        const n = el.childNodes[i];\n        if (n.nodeType === 3 && n.textContent && n.textContent.trim() !== \"\") {\n          selectableText = true;\n          break;\n        }\n      }\n    }\n  }\n  if (editable || selectableText) {\n    return (cs.writingMode || \"\").indexOf(\"vertical\") === 0 ? \"vertical-text\" : \"text\";\n  }\n  return \"default\";\n};\nvar isOutsideCaptureViewport = (rect, vp) => rect.right < vp.x || rect.bottom < vp.y || rect.left > vp.x + vp.width || rect.top > vp.y + vp.height;\n\n// src/capture/script/placeholder-shown.ts\nvar createPlaceholderShown = () => {\n  const rules = [];\n  const collect = (cssRules) => {\n    if (cssRules == null) return;\n    for (let i = 0; i < cssRules.length; i++) {\n      const rule = cssRules[i];\n      if (rule == null) continue;\n      const sel = rule.selectorText;\n      if (typeof sel === \"string\" && sel.indexOf(\":placeholder-shown\") >= 0) {\n        const hostSel = sel.replace(/:placeholder-shown/g, \"\").trim() || \"*\";\n        const decl = rule.style;\n        let bg = \"\";\n        if (!isUnsetCssValue(decl.backgroundColor)) bg = decl.backgroundColor;\n        else if (!isUnsetCssValue(decl.background)) {\n          const cm = decl.background.match(firstColorRe);\n          if (cm != null) bg = cm[1];\n        }\n        if (bg !== \"\") rules.push({ hostSel, bg });\n      }\n      if (rule.cssRules != null && rule.cssRules.length > 0) collect(rule.cssRules);\n    }\n  };\n  for (let i = 0; i < document.styleSheets.length; i++) {\n    try {\n      collect(document.styleSheets[i].cssRules);\n    } catch (e) {\n    }\n  }\n  const resolvePlaceholderShownBg = (el) => {\n    let bg = \"\";\n    for (let i = 0; i < rules.length; i++) {\n      const r = rules[i];\n      let isMatch = false;\n      try {\n        isMatch = el.matches(r.hostSel);\n      } catch (e) {\n      }\n      if (isMatch) bg = r.bg;\n    }\n    return bg;\n  };\n  return { resolvePlaceholderShownBg };\n};\n\n// src/capture/script/font-family-default.ts\nvar GENERIC_FAMILY_KEYWORDS = {\n  \"serif\": 1,\n  \"sans-serif\": 1,\n  \"monospace\": 1,\n  \"cursive\": 1,\n  \"fantasy\": 1,\n  \"system-ui\": 1,\n  \"ui-serif\": 1,\n  \"ui-sans-serif\": 1,\n  \"ui-monospace\": 1,\n  \"ui-rounded\": 1,\n  \"emoji\": 1,\n  \"math\": 1,\n  \"fangsong\": 1,\n  \"-webkit-body\": 1,\n  \"-webkit-standard\": 1,\n  \"-webkit-pictograph\": 1\n};\nvar createFontFamilyDefault = () => {\n  const selectorsByDocument = /* @__PURE__ */ new WeakMap();\n  const collect = (cssRules, familySelectors) => {\n    if (cssRules == null) return;\n    for (let i = 0; i < cssRules.length; i++) {\n      const rule = cssRules[i];\n      if (rule == null) continue;\n      const sel = rule.selectorText;\n      if (typeof sel === \"string\" && rule.style != null && rule.style.fontFamily !== \"\") {\n        familySelectors.push(sel);\n      }\n      if (rule.cssRules != null && rule.cssRules.length > 0) collect(rule.cssRules, familySelectors);\n    }\n  };\n  const selectorsFor = (doc) => {\n    const cached = selectorsByDocument.get(doc);\n    if (cached != null) return cached;\n    const familySelectors = [];\n    for (let i = 0; i < doc.styleSheets.length; i++) {\n      try {\n        collect(doc.styleSheets[i].cssRules, familySelectors);\n      } catch (e) {\n      }\n    }\n    selectorsByDocument.set(doc, familySelectors);\n    return familySelectors;\n  };\n  const UA_CONCRETE_FAMILY_TAGS = { INPUT: 1, TEXTAREA: 1, SELECT: 1, BUTTON: 1, KEYGEN: 1 };\n  const nodeSetsNonStandardFamily = (n, familySelectors) => {\n    if (UA_CONCRETE_FAMILY_TAGS[n.tagName] === 1) return true;\n    if (n.style != null && n.style.fontFamily !== \"\") return true;\n    if (n.tagName === \"FONT\" && n.hasAttribute(\"face\")) return true;\n    for (let i = 0; i < familySelectors.length; i++) {\n      let m = false;\n      try {\n        m = n.matches(familySelectors[i]);\n      } catch (e) {\n      }\n      if (m) return true;\n    }\n    return false;\n  };\n  const familyIsUADefault = (el, computedFontFamily) => {\n    if (typeof computedFontFamily !== \"string\" || computedFontFamily === \"\") return false;\n    const familySelectors = selectorsFor(el.ownerDocument || document);\n    let first = computedFontFamily.split(\",\")[0].trim();\n    if (first.charCodeAt(0) === 34 || first.charCodeAt(0) === 39) {\n      first = first.slice(1, -1);\n    }\n    if (first === \"\" || GENERIC_FAMILY_KEYWORDS[first.toLowerCase()] === 1) return false;\n    let n = el;\n    while (n != null && n.nodeType === 1) {\n      if (nodeSetsNonStandardFamily(n, familySelectors)) return false;\n      n = n.parentElement;\n    }\n    return true;\n  };\n  return { familyIsUADefault };\n};\n\n// src/capture/script/font-feature-values.ts\nfunction collectFontFeatureValues(doc) {\n  const families = {};\n  const categories = [\"annotation\", \"ornaments\", \"stylistic\", \"swash\", \"characterVariant\", \"styleset\"];\n  function familyNames(css) {\n    const out = [];\n    let token = \"\", quote = \"\";\n    for (const ch of css) {\n      if (quote) {\n        if (ch === quote) quote = \"\";\n        else token += ch;\n        continue;\n      }\n      if (ch === '\"' || ch === \"'\") {\n        quote = ch;\n        continue;\n      }\n      if (ch === \",\") {\n        if (token.trim()) out.push(token.trim().toLowerCase());\n        token = \"\";\n      } else token += ch;\n    }\n    if (token.trim()) out.push(token.trim().toLowerCase());\n    return out;\n  }\n  function visit(rules) {\n    if (!rules) return;\n    for (const rule of rules) {\n      if (typeof rule.fontFamily === \"string\" && rule.stylistic != null) {\n        for (const family of familyNames(rule.fontFamily)) {\n          const table = families[family] || (families[family] = {});\n          for (const category of categories) {\n            const entries = Array.from(rule[category].entries());\n            if (!entries.length) continue;\n            const aliases = table[category] || (table[category] = {});\n            for (const [name, values] of entries) aliases[name] = Array.from(values);\n          }\n        }\n      } else if (rule.cssRules) {\n        visit(rule.cssRules);\n      }\n    }\n  }\n  for (const sheet of doc.styleSheets) {\n    try {\n      visit(sheet.cssRules);\n    } catch {\n    }\n  }\n  return families;\n}\n\n// src/capture/script/pseudo-rules.ts\nvar _emptyPseudo = {\n  matched: false,\n  width: \"\",\n  height: \"\",\n  backgroundColor: \"\",\n  borderRadius: \"\",\n  backgroundImage: \"\",\n  border: \"\",\n  padding: \"\",\n  boxShadow: \"\"\n};\nvar createPseudoRules = (stylesByHost, propertyKey) => {\n  const resolveCornerRadius = (v, w, h, zoom) => {\n    if (v == null || v === \"\") return \"0px 0px\";\n    const z = zoom == null || zoom <= 0 ? 1 : zoom;\n    const parts = v.split(/\\s+/);\n    const a = parts[0] || \"0\";\n    const b = parts[1] != null ? parts[1] : a;\n    const aPx = a.endsWith(\"%\") ? (parseFloat(a) || 0) * w / 100 : (parseFloat(a) || 0) * z;\n    const bPx = b.endsWith(\"%\") ? (parseFloat(b) || 0) * h / 100 : (parseFloat(b) || 0) * z;\n    return aPx + \"px \" + bPx + \"px\";\n  };\n  const resolvePseudo = (el, kind) => {\n    if (propertyKey == null || propertyKey === \"\" || stylesByHost == null) return _emptyPseudo;\n    const hostId = el[propertyKey];\n    if (hostId == null) return _emptyPseudo;\n    return stylesByHost[hostId] && stylesByHost[hostId][kind] ? stylesByHost[hostId][kind] : _emptyPseudo;\n  };\n  return { resolvePseudo, resolveCornerRadius };\n};\n\n// src/capture/script/warnings.ts\nvar createWarnings = () => {\n  const warnings = [];\n  const seen = /* @__PURE__ */ new Set();\n  const shortSelector = (el) => {\n    const parts = [];\n    let cur = el;\n    while (cur != null && cur.nodeType === 1 && cur !== document.documentElement && parts.length < 5) {\n      let p = cur.tagName.toLowerCase();\n      if (cur.id) {\n        p += \"#\" + cur.id;\n        parts.unshift(p);\n        break;\n      }\n      if (cur.className && typeof cur.className === \"string\") {\n        const cls = cur.className.trim().split(/\\s+/).slice(0, 2).join(\".\");\n        if (cls !== \"\") p += \".\" + cls;\n      }\n      parts.unshift(p);\n      cur = cur.parentElement;\n    }\n    return parts.join(\" > \");\n  };\n  const warn = (sel, feature, detail) => {\n    const k = feature + \"|\" + sel;\n    if (seen.has(k)) return;\n    seen.add(k);\n    warnings.push({ selector: sel, feature, detail });\n  };\n  return { warn, shortSelector, warnings };\n};\n\n// src/capture/script/walker/counter-style-resolver.ts\nvar createCounterStyleResolver = ({ counterStyles }) => {\n  const BUILTINS = /* @__PURE__ */ new Set([\n    \"decimal\",\n    \"decimal-leading-zero\",\n    \"lower-alpha\",\n    \"lower-latin\",\n    \"upper-alpha\",\n    \"upper-latin\",\n    \"lower-roman\",\n    \"upper-roman\",\n    \"lower-greek\",\n    \"disc\",\n    \"circle\",\n    \"square\",\n    \"none\"\n  ]);\n  const resolveCounterStyle = (name, n) => _resolve(name, n, 0, true);\n  const resolveCounterValue = (name, n) => _resolve(name, n, 0, false);\n  const isCustomCounterStyle = (name) => counterStyles[name] != null;\n  const _resolve = (name, n, depth, wrap) => {\n    if (depth > 16) return null;\n    if (BUILTINS.has(name)) return _formatBuiltin(name, n);\n    const def = counterStyles[name];\n    if (def == null) return _formatBuiltin(\"decimal\", n);\n    if (def.system === \"extends\" && def.extendsName != null) {\n      const childSym = _resolve(def.extendsName, n, depth + 1, wrap);\n      if (childSym == null) return null;\n      const padded2 = _applyPad(childSym, def.padLen, def.padSym);\n      return wrap ? def.prefix + padded2 + def.suffix : padded2;\n    }\n    if (n < def.rangeLo || n > def.rangeHi) {\n      const fb = _resolve(def.fallback ?? \"decimal\", n, depth + 1, false);\n      if (fb == null) return null;\n      return wrap ? def.prefix + fb + def.suffix : fb;\n    }\n    const negative = n < 0;\n    const abs = Math.abs(n);\n    let core = null;\n    switch (def.system) {\n      case \"cyclic\":\n        if (def.symbols.length === 0) break;\n        core = def.symbols[((abs - 1) % def.symbols.length + def.symbols.length) % def.symbols.length];\n        break;\n      case \"fixed\": {\n        const idx0 = abs - 1;\n        if (idx0 >= 0 && idx0 < def.symbols.length) core = def.symbols[idx0];\n        break;\n      }\n      case \"numeric\": {\n        if (def.symbols.length < 2) break;\n        if (abs === 0) {\n          core = def.symbols[0];\n          break;\n        }\n        const base = def.symbols.length;\n        let v = abs;\n        let s = \"\";\n        while (v > 0) {\n          s = def.symbols[v % base] + s;\n          v = Math.floor(v / base);\n        }\n        core = s;\n        break;\n      }\n      case \"alphabetic\": {\n        if (def.symbols.length === 0 || abs <= 0) break;\n        const base = def.symbols.length;\n        let v = abs;\n        let s = \"\";\n        while (v > 0) {\n          v--;\n          s = def.symbols[v % base] + s;\n          v = Math.floor(v / base);\n        }\n        core = s;\n        break;\n      }\n      case \"symbolic\": {\n        if (def.symbols.length === 0 || abs <= 0) break;\n        const base = def.symbols.length;\n        const copies = Math.ceil(abs / base);\n        const sym = def.symbols[(abs - 1) % base];\n        core = sym.repeat(copies);\n        break;\n      }\n      case \"additive\": {\n        if (def.additiveSymbols.length === 0) break;\n        if (abs === 0) {\n          const zero = def.additiveSymbols.find((s) => s.weight === 0);\n          core = zero ? zero.sym : null;\n        } else {\n          let v = abs;\n          let s = \"\";\n          for (const { weight, sym } of def.additiveSymbols) {\n            if (weight <= 0) continue;\n            const count = Math.floor(v / weight);\n            for (let i = 0; i < count; i++) s += sym;\n            v -= count * weight;\n          }\n          core = v === 0 ? s : null;\n        }\n        break;\n      }\n    }\n    if (core == null) {\n      const fb = _resolve(def.fallback ?? \"decimal\", n, depth + 1, false);\n      if (fb == null) return null;\n      return wrap ? def.prefix + fb + def.suffix : fb;\n    }\n    const padded = _applyPad(core, def.padLen, def.padSym);\n    const sign = negative ? def.negPrefix : \"\";\n    const signTail = negative ? def.negSuffix : \"\";\n    return wrap ? def.prefix + sign + padded + signTail + def.suffix : sign + padded + signTail;\n  };\n  const _applyPad = (s, len, sym) => {\n    if (!len || !sym) return s;\n    while ([...s].length < len) s = sym + s;\n    return s;\n  };\n  const _formatBuiltin = (type, n) => {\n    switch (type) {\n      case \"decimal\":\n        return String(n);\n      case \"decimal-leading-zero\":\n        return n < 10 && n >= 0 ? \"0\" + n : String(n);\n      case \"lower-alpha\":\n      case \"lower-latin\":\n        return _alphaMarker(n, false);\n      case \"upper-alpha\":\n      case \"upper-latin\":\n        return _alphaMarker(n, true);\n      case \"lower-roman\":\n        return _romanMarker(n).toLowerCase();\n      case \"upper-roman\":\n        return _romanMarker(n);\n      case \"lower-greek\":\n        return _greekMarker(n);\n      case \"disc\":\n      case \"circle\":\n      case \"square\":\n      case \"none\":\n        return null;\n      default:\n        return String(n);\n    }\n  };\n  const _alphaMarker = (n, upper) => {\n    if (n <= 0) return String(n);\n    const base = upper ? 65 : 97;\n    let s = \"\";\n    let v = n;\n    while (v > 0) {\n      v--;\n      s = String.fromCharCode(base + v % 26) + s;\n      v = Math.floor(v / 26);\n    }\n    return s;\n  };\n  const _greekMarker = (n) => {\n    if (n <= 0) return String(n);\n    const greek = \"\\u03B1\\u03B2\\u03B3\\u03B4\\u03B5\\u03B6\\u03B7\\u03B8\\u03B9\\u03BA\\u03BB\\u03BC\\u03BD\\u03BE\\u03BF\\u03C0\\u03C1\\u03C3\\u03C4\\u03C5\\u03C6\\u03C7\\u03C8\\u03C9\";\n    let s = \"\";\n    let v = n;\n    while (v > 0) {\n      v--;\n      s = greek.charAt(v % 24) + s;\n      v = Math.floor(v / 24);\n    }\n    return s;\n  };\n  const _romanMarker = (n) => {\n    if (n <= 0 || n >= 4e3) return String(n);\n    const vals = [1e3, 900, 500, 400, 100, 90, 50, 40, 10, 9, 5, 4, 1];\n    const syms = [\"M\", \"CM\", \"D\", \"CD\", \"C\", \"XC\", \"L\", \"XL\", \"X\", \"IX\", \"V\", \"IV\", \"I\"];\n    let s = \"\";\n    let v = n;\n    for (let i = 0; i < vals.length; i++) {\n      while (v >= vals[i]) {\n        s += syms[i];\n        v -= vals[i];\n      }\n    }\n    return s;\n  };\n  return { resolveCounterStyle, resolveCounterValue, isCustomCounterStyle };\n};\n\n// src/capture/script/walker/counter-prewalk.ts\nvar createCounterStylePrewalk = ({ counterStyles }) => {\n  function _parseStringList(s) {\n    const out = [];\n    let i = 0;\n    while (i < s.length) {\n      while (i < s.length && /\\s/.test(s[i])) i++;\n      if (i >= s.length) break;\n      const q = s[i];\n      if (q !== '\"' && q !== \"'\") {\n        let j2 = i;\n        while (j2 < s.length && !/\\s/.test(s[j2])) j2++;\n        out.push(s.slice(i, j2));\n        i = j2;\n        continue;\n      }\n      let j = i + 1;\n      let val = \"\";\n      while (j < s.length && s[j] !== q) {\n        if (s[j] === \"\\\\\" && j + 1 < s.length) {\n          const hex = /^\\\\([0-9a-fA-F]{1,6})\\s?/.exec(s.slice(j));\n          if (hex != null) {\n            val += String.fromCodePoint(parseInt(hex[1], 16));\n            j += hex[0].length;\n            continue;\n          }\n          val += s[j + 1];\n          j += 2;\n        } else {\n          val += s[j];\n          j++;\n        }\n      }\n      out.push(val);\n      i = j + 1;\n    }\n    return out;\n  }\n  function _parseAdditiveSymbols(s) {\n    const out = [];\n    for (const tok of s.split(\",\")) {\n      const m = /(-?\\d+)\\s+(.+)/.exec(tok.trim());\n      if (m == null) continue;\n      const weight = parseInt(m[1], 10);\n      const sym = _parseStringList(m[2])[0] ?? \"\";\n      out.push({ weight, sym });\n    }\n    out.sort((a, b) => b.weight - a.weight);\n    return out;\n  }\n  function _walkRulesForCounterStyles(rules) {\n    for (let i = 0; i < rules.length; i++) {\n      const rule = rules[i];\n      if (rule.type === 11 || window.CSSCounterStyleRule != null && rule instanceof window.CSSCounterStyleRule) {\n        const name = rule.name;\n        if (!name) continue;\n        let extendsName;\n        let sys = rule.system || \"symbolic\";\n        const extMatch = /^extends\\s+(\\S+)/.exec(sys);\n        if (extMatch) {\n          extendsName = extMatch[1];\n          sys = \"extends\";\n        } else {\n          const sysMatch = /^(cyclic|numeric|alphabetic|symbolic|fixed|additive)\\b/.exec(sys);\n          sys = sysMatch ? sysMatch[1] : \"symbolic\";\n        }\n        const symbols = rule.symbols ? _parseStringList(rule.symbols) : [];\n        const additiveSymbols = rule.additiveSymbols ? _parseAdditiveSymbols(rule.additiveSymbols) : [];\n        const prefix = rule.prefix ? _parseStringList(rule.prefix)[0] ?? \"\" : \"\";\n        const suffix = rule.suffix ? _parseStringList(rule.suffix)[0] ?? \". \" : \". \";\n        const negativeRaw = rule.negative;\n        let negPrefix = \"-\";\n        let negSuffix = \"\";\n        if (negativeRaw) {\n          const nlist = _parseStringList(negativeRaw);\n          negPrefix = nlist[0] ?? \"-\";\n          if (nlist.length > 1) negSuffix = nlist[1];\n        }\n        let padLen = 0;\n        let padSym = \"\";\n        if (rule.pad) {\n          const pm = /^\\s*(\\d+)\\s+(.+)$/.exec(rule.pad);\n          if (pm != null) {\n            padLen = parseInt(pm[1], 10);\n            padSym = _parseStringList(pm[2])[0] ?? \"\";\n          }\n        }\n        let rangeLo = -Infinity;\n        let rangeHi = Infinity;\n        if (rule.range && rule.range !== \"auto\") {\n          const rm = /(-?\\d+|infinite)\\s+(-?\\d+|infinite)/.exec(rule.range);\n          if (rm != null) {\n            rangeLo = rm[1] === \"infinite\" ? -Infinity : parseInt(rm[1], 10);\n            rangeHi = rm[2] === \"infinite\" ? Infinity : parseInt(rm[2], 10);\n          }\n        }\n        const fallback = rule.fallback || \"decimal\";\n        counterStyles[name] = { system: sys, symbols, additiveSymbols, prefix, suffix, negPrefix, negSuffix, padLen, padSym, rangeLo, rangeHi, fallback, extendsName };\n      } else if (rule.cssRules) {\n        _walkRulesForCounterStyles(rule.cssRules);\n      }\n    }\n  }\n  return (doc) => {\n    const _doc = doc || document;\n    for (const sheet of Array.from(_doc.styleSheets)) {\n      try {\n        _walkRulesForCounterStyles(sheet.cssRules);\n      } catch (e) {\n      }\n    }\n  };\n};\n\n// src/capture/svg-affine-freeze.ts\nfunction isFiniteSvgAffine(matrix) {\n  return matrix != null && Number.isFinite(matrix.a) && Number.isFinite(matrix.b) && Number.isFinite(matrix.c) && Number.isFinite(matrix.d) && Number.isFinite(matrix.e) && Number.isFinite(matrix.f);\n}\nfunction multiplySvgAffine(left, right) {\n  return {\n    a: left.a * right.a + left.c * right.b,\n    b: left.b * right.a + left.d * right.b,\n    c: left.a * right.c + left.c * right.d,\n    d: left.b * right.c + left.d * right.d,\n    e: left.a * right.e + left.c * right.f + left.e,\n    f: left.b * right.e + left.d * right.f + left.f\n  };\n}\nfunction invertSvgAffine(matrix) {\n  if (!isFiniteSvgAffine(matrix)) return null;\n  const determinant = matrix.a * matrix.d - matrix.b * matrix.c;\n  if (!Number.isFinite(determinant) || determinant === 0) return null;\n  const inverse = {\n    a: matrix.d / determinant,\n    b: -matrix.b / determinant,\n    c: -matrix.c / determinant,\n    d: matrix.a / determinant,\n    e: (matrix.c * matrix.f - matrix.d * matrix.e) / determinant,\n    f: (matrix.b * matrix.e - matrix.a * matrix.f) / determinant\n  };\n  return isFiniteSvgAffine(inverse) ? inverse : null;\n}\nfunction deriveSvgAffineFreeze(usedCtm, parentCtm, neutralCtm) {\n  if (!isFiniteSvgAffine(usedCtm) || !isFiniteSvgAffine(parentCtm) || !isFiniteSvgAffine(neutralCtm)) {\n    return null;\n  }\n  const parentInverse = invertSvgAffine(parentCtm);\n  if (parentInverse == null) return null;\n  const usedLocal = multiplySvgAffine(parentInverse, usedCtm);\n  const neutralLocal = multiplySvgAffine(parentInverse, neutralCtm);\n  const neutralInverse = invertSvgAffine(neutralLocal);\n  if (neutralInverse == null) return null;\n  const frozen = multiplySvgAffine(usedLocal, neutralInverse);\n  if (invertSvgAffine(usedLocal) == null || invertSvgAffine(frozen) == null) return null;\n  return { usedLocal, neutralLocal, frozen };\n}\nfunction serializeSvgNumber(value) {\n  return Object.is(value, -0) ? \"0\" : String(value);\n}\nfunction serializeSvgAffine(matrix) {\n  if (!isFiniteSvgAffine(matrix)) return null;\n  return `matrix(${serializeSvgNumber(matrix.a)} ${serializeSvgNumber(matrix.b)} ${serializeSvgNumber(matrix.c)} ${serializeSvgNumber(matrix.d)} ${serializeSvgNumber(matrix.e)} ${serializeSvgNumber(matrix.f)})`;\n}\nfunction svgAffineMaxPointError(left, right, points = [[0, 0], [1, 0], [0, 1]]) {\n  if (!isFiniteSvgAffine(left) || !isFiniteSvgAffine(right)) return Number.POSITIVE_INFINITY;\n  let max = 0;\n  for (const [x, y] of points) {\n    const lx = left.a * x + left.c * y + left.e;\n    const ly = left.b * x + left.d * y + left.f;\n    const rx = right.a * x + right.c * y + right.e;\n    const ry = right.b * x + right.d * y + right.f;\n    max = Math.max(max, Math.hypot(lx - rx, ly - ry));\n  }\n  return max;\n}\n\n// src/capture/script/walker/inline-svg.ts\nvar captureInlineSvg = (el, cs, warn, sel) => {\n  const svgFill = cs.fill;\n  const svgStroke = cs.stroke;\n  const svgStrokeWidth = cs.strokeWidth;\n  const svgFontFamily = cs.fontFamily;\n  const clone = el.cloneNode(true);\n  var _affineFreezeFailure = null;\n  const _affineFreezeRecords = [];\n  const _frozenByClone = /* @__PURE__ */ new WeakMap();\n  const _transformProperties = /* @__PURE__ */ new Set([\n    \"transform\",\n    \"transform-origin\",\n    \"transform-box\",\n    \"translate\",\n    \"rotate\",\n    \"scale\",\n    \"offset\",\n    \"offset-path\",\n    \"offset-distance\",\n    \"offset-position\",\n    \"offset-anchor\",\n    \"offset-rotate\"\n  ]);\n  const _matrixFrom = (matrix) => matrix == null ? null : {\n    a: Number(matrix.a),\n    b: Number(matrix.b),\n    c: Number(matrix.c),\n    d: Number(matrix.d),\n    e: Number(matrix.e),\n    f: Number(matrix.f)\n  };\n  const _nearestCtmParent = (node) => {\n    var parent = node.parentElement;\n    while (parent != null && typeof parent.getCTM !== \"function\") parent = parent.parentElement;\n    return parent;\n  };\n  const _hasTransformSignal = (node, style) => {\n    if (node.hasAttribute && node.hasAttribute(\"transform\")) return true;\n    for (const prop of [\"transform\", \"translate\", \"rotate\", \"scale\", \"offset-path\"]) {\n      const value = style.getPropertyValue(prop).trim();\n      if (value !== \"\" && value !== \"none\") return true;\n    }\n    for (const child of node.children || []) {\n      const name = (child.localName || \"\").toLowerCase();\n      const attribute = (child.getAttribute && child.getAttribute(\"attributeName\") || \"\").toLowerCase();\n      if (name === \"animatemotion\" || name === \"animatetransform\" || (name === \"animate\" || name === \"set\") && attribute === \"transform\") return true;\n    }\n    return false;\n  };\n  const _neutralizeProbeTransform = (probe) => {\n    if (probe.style == null) return;\n    probe.style.setProperty(\"transform\", \"none\", \"important\");\n    probe.style.setProperty(\"translate\", \"none\", \"important\");\n    probe.style.setProperty(\"rotate\", \"none\", \"important\");\n    probe.style.setProperty(\"scale\", \"none\", \"important\");\n    probe.style.setProperty(\"offset-path\", \"none\", \"important\");\n    probe.style.setProperty(\"animation\", \"none\", \"important\");\n    probe.style.setProperty(\"transition\", \"none\", \"important\");\n    probe.style.setProperty(\"visibility\", \"hidden\", \"important\");\n    probe.style.setProperty(\"opacity\", \"0\", \"important\");\n    probe.style.setProperty(\"pointer-events\", \"none\", \"important\");\n  };\n  const _cleanCloneTransformOwner = (node, serialized) => {\n    node.setAttribute(\"transform\", serialized);\n    if (node.style != null) {\n      for (const prop of _transformProperties) node.style.removeProperty(prop);\n    }\n  };\n  const _freezeUsedAffine = (origNode, cloneNode, ocs) => {\n    if (_affineFreezeFailure != null || !_hasTransformSignal(origNode, ocs)) return;\n    if (typeof origNode.getCTM !== \"function\") {\n      _affineFreezeFailure = \"transformed SVG node does not expose getCTM()\";\n      return;\n    }\n    const parent = _nearestCtmParent(origNode);\n    if (parent == null || typeof parent.getCTM !== \"function\") {\n      _affineFreezeFailure = \"transformed SVG node has no correlatable SVG parent CTM\";\n      return;\n    }\n    var usedCtm = null;\n    var parentCtm = null;\n    try {\n      usedCtm = _matrixFrom(origNode.getCTM());\n      parentCtm = _matrixFrom(parent.getCTM());\n    } catch (e) {\n      _affineFreezeFailure = \"Blink-used parent-relative affine matrix could not be read\";\n      return;\n    }\n    var probe = null;\n    var neutralCtm = null;\n    try {\n      probe = cloneNode.cloneNode(false);\n      _neutralizeProbeTransform(probe);\n      if (probe.setAttribute) probe.setAttribute(\"aria-hidden\", \"true\");\n      origNode.parentElement.appendChild(probe);\n      neutralCtm = _matrixFrom(probe.getCTM && probe.getCTM());\n    } catch (e) {\n      neutralCtm = null;\n    } finally {\n      if (probe != null && probe.remove) probe.remove();\n    }\n    const freeze = usedCtm != null && parentCtm != null && neutralCtm != null ? deriveSvgAffineFreeze(usedCtm, parentCtm, neutralCtm) : null;\n    const serialized = freeze == null ? null : serializeSvgAffine(freeze.frozen);\n    if (freeze == null || serialized == null) {\n      _affineFreezeFailure = \"Blink-used parent-relative affine matrix was unavailable or singular\";\n      return;\n    }\n    _cleanCloneTransformOwner(cloneNode, serialized);\n    var points = [[0, 0], [1, 0], [0, 1]];\n    try {\n      const bbox = origNode.getBBox();\n      if (bbox != null && [bbox.x, bbox.y, bbox.width, bbox.height].every(Number.isFinite)) {\n        points = [[bbox.x, bbox.y], [bbox.x + bbox.width, bbox.y], [bbox.x, bbox.y + bbox.height], [bbox.x + bbox.width, bbox.y + bbox.height]];\n      }\n    } catch (e) {\n    }\n    const record = { cloneNode, expected: freeze.usedLocal, frozen: freeze.frozen, points, serialized, skip: false };\n    _affineFreezeRecords.push(record);\n    _frozenByClone.set(cloneNode, record);\n  };\n  const _unresolvedCssExprRe = /\\b(?:var|calc|env|attr)\\s*\\(/;\n  function _isUnresolvedCssExpr(v) {\n    return v != null && _unresolvedCssExprRe.test(v);\n  }\n  function _hasConcreteAttr(node, attr) {\n    return node.hasAttribute(attr) && !_isUnresolvedCssExpr(node.getAttribute(attr));\n  }\n  if (svgFill && svgFill !== \"\" && !_hasConcreteAttr(el, \"fill\")) clone.setAttribute(\"fill\", svgFill);\n  if (svgStroke && svgStroke !== \"\" && svgStroke !== \"none\" && !_hasConcreteAttr(el, \"stroke\")) clone.setAttribute(\"stroke\", svgStroke);\n  if (svgStrokeWidth && svgStrokeWidth !== \"\" && !_hasConcreteAttr(el, \"stroke-width\")) clone.setAttribute(\"stroke-width\", svgStrokeWidth);\n  if (svgFontFamily && svgFontFamily !== \"\" && !el.hasAttribute(\"font-family\")) {\n    clone.setAttribute(\"font-family\", svgFontFamily);\n  }\n  const svgOverflow = cs.getPropertyValue(\"overflow\").trim();\n  if (svgOverflow !== \"\") clone.style.setProperty(\"overflow\", svgOverflow);\n  const _bakeSvgAttrs = [\"fill\", \"stroke\", \"stroke-width\", \"stroke-dasharray\", \"stroke-linecap\", \"stroke-linejoin\", \"stroke-opacity\", \"fill-opacity\", \"opacity\"];\n  const _svgGeomAttrsByTag = {\n    circle: [\"cx\", \"cy\", \"r\"],\n    ellipse: [\"cx\", \"cy\", \"rx\", \"ry\"],\n    rect: [\"x\", \"y\", \"width\", \"height\", \"rx\", \"ry\"],\n    image: [\"x\", \"y\", \"width\", \"height\"],\n    foreignobject: [\"x\", \"y\", \"width\", \"height\"],\n    use: [\"x\", \"y\", \"width\", \"height\"],\n    svg: [\"x\", \"y\", \"width\", \"height\"],\n    path: [\"d\"]\n  };\n  const _bakeSvgMaskProps = [\"mask-image\", \"mask-origin\", \"mask-clip\", \"mask-position\", \"mask-size\", \"mask-repeat\", \"mask-composite\", \"mask-mode\"];\n  const _walkBake = (origNode, cloneNode) => {\n    if (origNode.nodeType !== 1) return;\n    const ns = origNode.namespaceURI;\n    if (ns === \"http://www.w3.org/2000/svg\" && origNode !== el) {\n      const ocs = window.getComputedStyle(origNode);\n      const _usesCurrentColor = (camel) => {\n        const baseVal = ocs[camel];\n        if (baseVal !== ocs.color) return false;\n        const savedColor = origNode.style.color;\n        origNode.style.color = \"rgb(1, 2, 3)\";\n        const probeCs = window.getComputedStyle(origNode);\n        const matches = probeCs[camel] === probeCs.color;\n        origNode.style.color = savedColor;\n        return matches;\n      };\n      for (const attr of _bakeSvgAttrs) {\n        const camel = attr.replace(/-([a-z])/g, (_, c) => c.toUpperCase());\n        const val = ocs[camel];\n        if (val != null && val !== \"\" && !_hasConcreteAttr(origNode, attr)) {\n          const preserveCurrent = (attr === \"fill\" || attr === \"stroke\") && _usesCurrentColor(camel);\n          cloneNode.setAttribute(attr, preserveCurrent ? \"currentColor\" : val);\n        }\n      }\n      const geomAttrs = _svgGeomAttrsByTag[(origNode.localName || \"\").toLowerCase()] || [];\n      for (const gattr of geomAttrs) {\n        let smilOwnsValue = false;\n        for (const child of origNode.children) {\n          if ((child.localName || \"\").toLowerCase() === \"animate\" && child.getAttribute(\"attributeName\") === gattr) {\n            smilOwnsValue = true;\n            break;\n          }\n        }\n        if (smilOwnsValue) continue;\n        let gval = ocs.getPropertyValue(gattr);\n        if (gval == null) continue;\n        gval = gval.trim();\n        if (gval === \"\" || gval === \"auto\" || gval === \"none\" || gval === \"normal\") continue;\n        if (gattr === \"d\") {\n          const m = /^path\\(\\s*(?:\"([^\"]*)\"|'([^']*)')\\s*\\)$/.exec(gval);\n          if (m) gval = m[1] != null ? m[1] : m[2];\n          else continue;\n        } else if (/^-?\\d+(?:\\.\\d+)?px$/.test(gval)) {\n          gval = gval.slice(0, -2);\n        }\n        const sourceVal = origNode.getAttribute(gattr);\n        if (sourceVal != null && !_isUnresolvedCssExpr(sourceVal) && sourceVal.trim() === gval) continue;\n        cloneNode.setAttribute(gattr, gval);\n      }\n      const computedClipPath = ocs.getPropertyValue(\"clip-path\").trim();\n      if (computedClipPath !== \"\" && computedClipPath !== \"none\") {\n        cloneNode.style.setProperty(\"clip-path\", computedClipPath);\n      }\n      const computedFilter = ocs.getPropertyValue(\"filter\").trim();\n      if (computedFilter !== \"\" && computedFilter !== \"none\") {\n        cloneNode.style.setProperty(\"filter\", computedFilter);\n      }\n      const computedOverflow = ocs.getPropertyValue(\"overflow\").trim();\n      if (computedOverflow !== \"\" && computedOverflow !== \"visible\") {\n        cloneNode.style.setProperty(\"overflow\", computedOverflow);\n      }\n      const computedMaskImage = ocs.getPropertyValue(\"mask-image\").trim();\n      if (computedMaskImage !== \"\" && computedMaskImage !== \"none\") {\n        for (const prop of _bakeSvgMaskProps) {\n          const value = ocs.getPropertyValue(prop).trim();\n          if (value !== \"\") cloneNode.style.setProperty(prop, value);\n        }\n      }\n      if (origNode.tagName && origNode.tagName.toLowerCase() === \"mask\") {\n        const mt = ocs.maskType || ocs.getPropertyValue(\"mask-type\");\n        if (mt === \"alpha\" || mt === \"luminance\") {\n          if (!origNode.hasAttribute(\"mask-type\") || origNode.getAttribute(\"mask-type\") !== mt) {\n            cloneNode.setAttribute(\"mask-type\", mt);\n          }\n        }\n      }\n      _freezeUsedAffine(origNode, cloneNode, ocs);\n    }\n    const oChildren = origNode.children;\n    const cChildren = cloneNode.children;\n    const n = Math.min(oChildren.length, cChildren.length);\n    for (let i = 0; i < n; i++) _walkBake(oChildren[i], cChildren[i]);\n  };\n  _walkBake(el, clone);\n  const _svgNS = \"http://www.w3.org/2000/svg\";\n  const _xlinkNS = \"http://www.w3.org/1999/xlink\";\n  const _resolveUseRefs = (root, depth) => {\n    if (depth > 5) return;\n    var uses = root.querySelectorAll ? root.querySelectorAll(\"use\") : [];\n    for (var ui = 0; ui < uses.length; ui++) {\n      var useEl = uses[ui];\n      var href = useEl.getAttribute(\"href\");\n      if (href == null || href === \"\") href = useEl.getAttributeNS(_xlinkNS, \"href\") || \"\";\n      if (href.charAt(0) !== \"#\") continue;\n      var targetId = href.slice(1);\n      var target = document.getElementById(targetId);\n      if (target == null) continue;\n      if (target.namespaceURI !== _svgNS) continue;\n      if (typeof target.getAnimations === \"function\") {\n        try {\n          var anims = target.getAnimations({ subtree: true });\n          if (anims != null && anims.length > 0) {\n            warn(sel, \"inline-svg\", '<use href=\"#' + targetId + '\"> resolved to a CSS-animated subtree; the inlined SVG carries the t=0 computed paint state (no animation in the output)');\n          }\n        } catch (e) {\n        }\n      }\n      var ux = parseFloat(useEl.getAttribute(\"x\") || \"0\") || 0;\n      var uy = parseFloat(useEl.getAttribute(\"y\") || \"0\") || 0;\n      var uw = useEl.getAttribute(\"width\");\n      var uh = useEl.getAttribute(\"height\");\n      var targetTag = target.tagName.toLowerCase();\n      var replacement;\n      if (targetTag === \"symbol\") {\n        var vb = target.getAttribute(\"viewBox\") || \"\";\n        var par = target.getAttribute(\"preserveAspectRatio\") || \"\";\n        var innerSvg = document.createElementNS(_svgNS, \"svg\");\n        if (ux !== 0) innerSvg.setAttribute(\"x\", String(ux));\n        if (uy !== 0) innerSvg.setAttribute(\"y\", String(uy));\n        if (uw != null) innerSvg.setAttribute(\"width\", uw);\n        if (uh != null) innerSvg.setAttribute(\"height\", uh);\n        if (vb !== \"\") innerSvg.setAttribute(\"viewBox\", vb);\n        if (par !== \"\") innerSvg.setAttribute(\"preserveAspectRatio\", par);\n        for (var ci = 0; ci < target.children.length; ci++) {\n          var clonedChild = target.children[ci].cloneNode(true);\n          innerSvg.appendChild(clonedChild);\n          _walkBake(target.children[ci], clonedChild);\n        }\n        var useTransformAttrSym = useEl.getAttribute(\"transform\") || \"\";\n        if (useTransformAttrSym !== \"\") {\n          replacement = document.createElementNS(_svgNS, \"g\");\n          replacement.setAttribute(\"transform\", useTransformAttrSym);\n          replacement.appendChild(innerSvg);\n        } else {\n          replacement = innerSvg;\n        }\n      } else {\n        replacement = document.createElementNS(_svgNS, \"g\");\n        var useTransformAttr = useEl.getAttribute(\"transform\") || \"\";\n        var translatePart = ux !== 0 || uy !== 0 ? \"translate(\" + ux + \",\" + uy + \")\" : \"\";\n        var composedTransform = (useTransformAttr + \" \" + translatePart).trim();\n        if (composedTransform !== \"\") {\n          replacement.setAttribute(\"transform\", composedTransform);\n        }\n        var clonedTarget = target.cloneNode(true);\n        if (clonedTarget.removeAttribute) clonedTarget.removeAttribute(\"id\");\n        replacement.appendChild(clonedTarget);\n        _walkBake(target, clonedTarget);\n        if (clonedTarget.tagName && clonedTarget.tagName.toLowerCase() === \"svg\" && clonedTarget.removeAttribute) {\n          if (!_hasConcreteAttr(target, \"width\") && /^0(?:\\.0+)?$/.test(clonedTarget.getAttribute(\"width\") || \"\")) {\n            clonedTarget.removeAttribute(\"width\");\n          }\n          if (!_hasConcreteAttr(target, \"height\") && /^0(?:\\.0+)?$/.test(clonedTarget.getAttribute(\"height\") || \"\")) {\n            clonedTarget.removeAttribute(\"height\");\n          }\n        }\n      }\n      const useFreeze = _frozenByClone.get(useEl);\n      if (useFreeze != null) {\n        useFreeze.skip = true;\n        var replacementExpected = useFreeze.frozen;\n        if (targetTag !== \"symbol\" && (ux !== 0 || uy !== 0)) {\n          replacementExpected = multiplySvgAffine(replacementExpected, {\n            a: 1,\n            b: 0,\n            c: 0,\n            d: 1,\n            e: ux,\n            f: uy\n          });\n        }\n        const replacementSerialized = serializeSvgAffine(replacementExpected);\n        if (replacementSerialized == null) {\n          _affineFreezeFailure = _affineFreezeFailure || \"inlined use transform could not be serialized\";\n        } else {\n          replacement.setAttribute(\"transform\", replacementSerialized);\n        }\n        _affineFreezeRecords.push({\n          cloneNode: replacement,\n          expected: replacementExpected,\n          frozen: replacementExpected,\n          points: useFreeze.points,\n          serialized: replacement.getAttribute(\"transform\") || \"\",\n          skip: false\n        });\n      }\n      var _useAttrs = [\"fill\", \"stroke\", \"stroke-width\", \"opacity\", \"class\", \"style\"];\n      for (var ai = 0; ai < _useAttrs.length; ai++) {\n        var av = useEl.getAttribute(_useAttrs[ai]);\n        if (av != null && av !== \"\") replacement.setAttribute(_useAttrs[ai], av);\n      }\n      useEl.parentNode.replaceChild(replacement, useEl);\n      _resolveUseRefs(replacement, depth + 1);\n    }\n  };\n  _resolveUseRefs(clone, 0);\n  for (const animation of Array.from(clone.querySelectorAll ? clone.querySelectorAll(\"animateMotion, animateTransform, animate[attributeName], set[attributeName]\") : [])) {\n    const name = (animation.localName || \"\").toLowerCase();\n    const attribute = (animation.getAttribute(\"attributeName\") || \"\").toLowerCase();\n    if (name === \"animatemotion\" || name === \"animatetransform\" || attribute === \"transform\") animation.remove();\n  }\n  const _sanitizeClonedTransformCss = () => {\n    for (const styleNode of Array.from(clone.querySelectorAll ? clone.querySelectorAll(\"style\") : [])) {\n      const cssText = styleNode.textContent || \"\";\n      if (!/(?:transform|translate|rotate|scale|offset(?:-|\\s*:))/i.test(cssText)) continue;\n      if (/@import\\b/i.test(cssText) || typeof CSSStyleSheet !== \"function\") {\n        _affineFreezeFailure = _affineFreezeFailure || \"transform-bearing cloned stylesheet could not be inspected\";\n        continue;\n      }\n      try {\n        const sheet = new CSSStyleSheet();\n        sheet.replaceSync(cssText);\n        const cleanRules = (rules) => {\n          for (const rule of Array.from(rules || [])) {\n            if (rule.style != null) {\n              for (const prop of Array.from(rule.style)) {\n                const normalized = prop.toLowerCase().replace(/^-webkit-/, \"\");\n                if (_transformProperties.has(normalized)) rule.style.removeProperty(prop);\n              }\n            }\n            if (rule.cssRules != null) cleanRules(rule.cssRules);\n          }\n        };\n        cleanRules(sheet.cssRules);\n        styleNode.textContent = Array.from(sheet.cssRules).map((rule) => rule.cssText).join(\"\\n\");\n      } catch (e) {\n        _affineFreezeFailure = _affineFreezeFailure || \"transform-bearing cloned stylesheet failed CSSOM normalization\";\n      }\n    }\n  };\n  _sanitizeClonedTransformCss();\n  const _validateFrozenAffines = () => {\n    if (_affineFreezeFailure != null || _affineFreezeRecords.length === 0) return;\n    const host = document.createElement(\"div\");\n    host.setAttribute(\"aria-hidden\", \"true\");\n    host.style.setProperty(\"all\", \"initial\", \"important\");\n    host.style.setProperty(\"position\", \"fixed\", \"important\");\n    host.style.setProperty(\"left\", \"-100000px\", \"important\");\n    host.style.setProperty(\"top\", \"-100000px\", \"important\");\n    host.style.setProperty(\"visibility\", \"hidden\", \"important\");\n    var shadow = null;\n    try {\n      shadow = host.attachShadow({ mode: \"closed\" });\n      shadow.appendChild(clone);\n      (document.body || document.documentElement).appendChild(host);\n      for (const record of _affineFreezeRecords) {\n        if (record.skip || !record.cloneNode.isConnected) continue;\n        const parent = _nearestCtmParent(record.cloneNode);\n        const parentCtm = _matrixFrom(parent && parent.getCTM && parent.getCTM());\n        const cloneCtm = _matrixFrom(record.cloneNode.getCTM && record.cloneNode.getCTM());\n        const parentInverse = parentCtm == null ? null : invertSvgAffine(parentCtm);\n        const actual = parentInverse == null || cloneCtm == null ? null : multiplySvgAffine(parentInverse, cloneCtm);\n        if (actual == null || svgAffineMaxPointError(actual, record.expected, record.points) > 1 / 256) {\n          _affineFreezeFailure = \"serialized SVG affine did not correlate with Blink-used local geometry\";\n          break;\n        }\n      }\n    } catch (e) {\n      _affineFreezeFailure = \"serialized SVG affine could not be validated in an isolated clone\";\n    } finally {\n      host.remove();\n    }\n  };\n  _validateFrozenAffines();\n  var _hostColor = cs.color;\n  var _substCurrentColor = (node) => {\n    if (node.nodeType !== 1) return;\n    var fa = node.getAttribute && node.getAttribute(\"fill\");\n    if (fa != null && /^currentcolor$/i.test(fa)) node.setAttribute(\"fill\", _hostColor);\n    var sa = node.getAttribute && node.getAttribute(\"stroke\");\n    if (sa != null && /^currentcolor$/i.test(sa)) node.setAttribute(\"stroke\", _hostColor);\n    for (var ci = 0; ci < node.children.length; ci++) _substCurrentColor(node.children[ci]);\n  };\n  _substCurrentColor(clone);\n  if (_affineFreezeFailure != null) {\n    warn(sel, \"inline-svg\", _affineFreezeFailure + \"; promoted the outer inline SVG to Chromium raster ownership\");\n  }\n  return { content: clone.outerHTML, affineFreezeFailed: _affineFreezeFailure != null };\n};\n\n// src/capture/script/walker/fieldset-legend.ts\nvar computeFieldsetLegendBox = (el, tag, rect, vp) => {\n  let fieldsetLegendNotch;\n  let fsX = rect.left - vp.x;\n  let fsY = rect.top - vp.y;\n  let fsW = rect.width;\n  let fsH = rect.height;\n  if (tag === \"fieldset\") {\n    for (let i = 0; i < el.children.length; i++) {\n      const ch = el.children[i];\n      if (ch.tagName.toLowerCase() !== \"legend\") continue;\n      const lr = ch.getBoundingClientRect();\n      if (lr.height > 0 && lr.width > 0 && Math.abs(lr.top - rect.top) < 2) {\n        const inset = lr.height / 2;\n        fsY = rect.top - vp.y + inset;\n        fsH = rect.height - inset;\n        fieldsetLegendNotch = { x: lr.left - vp.x, y: lr.top - vp.y, w: lr.width, h: lr.height };\n      }\n      break;\n    }\n  }\n  return { x: fsX, y: fsY, width: fsW, height: fsH, fieldsetLegendNotch };\n};\n\n// src/capture/script/walker/fragmentation.ts\nvar detectInlineFragments = (el, cs, vp, captured) => {\n  var _ownCount = parseInt(cs.columnCount, 10);\n  var _ownColumnWidth = parseFloat(cs.columnWidth || \"\");\n  var _ownGap = parseFloat(cs.columnGap || \"\");\n  if (!Number.isFinite(_ownGap)) _ownGap = parseFloat(cs.fontSize || \"16\") || 16;\n  var _ruleWidth = parseFloat(cs.columnRuleWidth || \"0\") || 0;\n  var _ruleStyle = cs.columnRuleStyle || \"none\";\n  if (_ruleWidth > 0 && _ruleStyle !== \"none\" && _ruleStyle !== \"hidden\") {\n    var _box = el.getBoundingClientRect();\n    var _contentLeft = _box.left + (parseFloat(cs.borderLeftWidth) || 0) + (parseFloat(cs.paddingLeft) || 0);\n    var _contentRight = _box.right - (parseFloat(cs.borderRightWidth) || 0) - (parseFloat(cs.paddingRight) || 0);\n    var _contentTop = _box.top + (parseFloat(cs.borderTopWidth) || 0) + (parseFloat(cs.paddingTop) || 0);\n    var _contentBottom = _box.bottom - (parseFloat(cs.borderBottomWidth) || 0) - (parseFloat(cs.paddingBottom) || 0);\n    var _contentWidth = _contentRight - _contentLeft;\n    if (!(Number.isFinite(_ownCount) && _ownCount > 1) && Number.isFinite(_ownColumnWidth) && _ownColumnWidth > 0) {\n      _ownCount = Math.max(1, Math.floor((_contentWidth + _ownGap) / (_ownColumnWidth + _ownGap)));\n    }\n    if (Number.isFinite(_ownCount) && _ownCount > 1 && _contentWidth > 0 && _contentBottom > _contentTop) {\n      var _rows = [];\n      var _rowStart = _contentTop;\n      for (var _si = 0; _si < el.children.length; _si++) {\n        var _span = el.children[_si];\n        var _spanCs = window.getComputedStyle(_span);\n        if (_spanCs.columnSpan !== \"all\") continue;\n        var _spanRect = _span.getBoundingClientRect();\n        var _spanTop = _spanRect.top - (parseFloat(_spanCs.marginTop) || 0);\n        var _spanBottom = _spanRect.bottom + (parseFloat(_spanCs.marginBottom) || 0);\n        if (_spanTop > _rowStart) _rows.push([_rowStart, Math.min(_spanTop, _contentBottom)]);\n        _rowStart = Math.max(_rowStart, _spanBottom);\n      }\n      if (_contentBottom > _rowStart) _rows.push([_rowStart, _contentBottom]);\n      var _columnWidth = (_contentWidth - _ownGap * (_ownCount - 1)) / _ownCount;\n      var _rules = [];\n      for (var _ri = 1; _ri < _ownCount; _ri++) {\n        var _ruleX = _contentLeft + _ri * _columnWidth + (_ri - 0.5) * _ownGap - vp.x;\n        for (var _rsi = 0; _rsi < _rows.length; _rsi++) {\n          if (_rows[_rsi][1] <= _rows[_rsi][0]) continue;\n          _rules.push({\n            x: _ruleX,\n            y1: _rows[_rsi][0] - vp.y,\n            y2: _rows[_rsi][1] - vp.y,\n            width: _ruleWidth,\n            color: cs.columnRuleColor,\n            style: _ruleStyle\n          });\n        }\n      }\n      if (_rules.length > 0) captured.columnRules = _rules;\n    }\n  }\n  var _bgC = captured.styles.backgroundColor;\n  var _hasBg = _bgC != null && _bgC !== \"\" && _bgC !== \"transparent\" && _bgC !== \"rgba(0, 0, 0, 0)\";\n  var _hasBgImage = captured.styles.backgroundImage != null && captured.styles.backgroundImage !== \"\" && captured.styles.backgroundImage !== \"none\";\n  var _hasMaskImage = captured.styles.maskImage != null && captured.styles.maskImage !== \"\" && captured.styles.maskImage !== \"none\";\n  var _btw = parseFloat(captured.styles.borderTopWidth || \"0\") || 0;\n  var _brw = parseFloat(captured.styles.borderRightWidth || \"0\") || 0;\n  var _bbw = parseFloat(captured.styles.borderBottomWidth || \"0\") || 0;\n  var _blw = parseFloat(captured.styles.borderLeftWidth || \"0\") || 0;\n  var _hasBorder = _btw > 0 || _brw > 0 || _bbw > 0 || _blw > 0;\n  var _hasPaint = _hasBg || _hasBgImage || _hasBorder || _hasMaskImage;\n  var _isInline = cs.display === \"inline\";\n  var _isBlockLevel = !_isInline && (cs.display === \"block\" || cs.display === \"list-item\" || cs.display === \"flex\" || cs.display === \"grid\" || cs.display === \"flow-root\" || cs.display === \"inline-block\" || cs.display === \"inline-flex\" || cs.display === \"inline-grid\");\n  var _inMultiColumn = false;\n  if (_isBlockLevel && _hasPaint) {\n    var _a = el.parentElement;\n    while (_a != null) {\n      var _ac = window.getComputedStyle(_a);\n      var _cc = parseInt(_ac.columnCount, 10);\n      var _cw = _ac.columnWidth;\n      if (Number.isFinite(_cc) && _cc > 1 || _cw != null && _cw !== \"auto\" && _cw !== \"\" && _cw !== \"normal\") {\n        _inMultiColumn = true;\n        break;\n      }\n      if (_a === document.body) break;\n      _a = _a.parentElement;\n    }\n  }\n  if (_hasPaint && (_isInline || _inMultiColumn)) {\n    var _cr = el.getClientRects();\n    if (_cr != null && _cr.length > 1) {\n      var _frags = [];\n      for (var _ci = 0; _ci < _cr.length; _ci++) {\n        var _f = _cr[_ci];\n        if (_f.width <= 0 || _f.height <= 0) continue;\n        _frags.push({\n          x: _f.left - vp.x,\n          y: _f.top - vp.y,\n          width: _f.width,\n          height: _f.height\n        });\n      }\n      if (_frags.length > 1) {\n        if (_hasBgImage) {\n          var _writingMode = String(cs.writingMode || \"horizontal-tb\").toLowerCase();\n          var _horizontalWriting = _writingMode === \"horizontal-tb\";\n          var _logicalSizes = [];\n          var _stitchedSize = 0;\n          for (var _gsi = 0; _gsi < _frags.length; _gsi++) {\n            var _logicalSize = _isInline ? _horizontalWriting ? _frags[_gsi].width : _frags[_gsi].height : _horizontalWriting ? _frags[_gsi].height : _frags[_gsi].width;\n            _logicalSizes.push(_logicalSize);\n            _stitchedSize += _logicalSize;\n          }\n          var _consumed = 0;\n          for (var _gfi = 0; _gfi < _frags.length; _gfi++) {\n            var _gf = _frags[_gfi];\n            var _physicalOffsetX = 0;\n            var _physicalOffsetY = 0;\n            if (_isInline) {\n              var _inlineOffset = cs.direction === \"rtl\" ? _stitchedSize - _consumed - _logicalSizes[_gfi] : _consumed;\n              if (_horizontalWriting) _physicalOffsetX = _inlineOffset;\n              else _physicalOffsetY = _inlineOffset;\n            } else if (_horizontalWriting) {\n              _physicalOffsetY = _consumed;\n            } else if (_writingMode === \"vertical-rl\" || _writingMode === \"sideways-rl\") {\n              _physicalOffsetX = _stitchedSize - _consumed - _logicalSizes[_gfi];\n            } else {\n              _physicalOffsetX = _consumed;\n            }\n            _gf.backgroundOffsetInStitchedBox = {\n              x: _physicalOffsetX,\n              y: _physicalOffsetY\n            };\n            _gf.backgroundPositioningArea = {\n              x: _gf.x - _physicalOffsetX,\n              y: _gf.y - _physicalOffsetY,\n              width: _horizontalWriting ? _isInline ? _stitchedSize : _gf.width : _isInline ? _gf.width : _stitchedSize,\n              height: _horizontalWriting ? _isInline ? _gf.height : _stitchedSize : _isInline ? _stitchedSize : _gf.height\n            };\n            _consumed += _logicalSizes[_gfi];\n          }\n        }\n        captured.inlineFragments = _frags;\n        captured.fragmentAxis = _isInline ? \"inline\" : \"block\";\n      }\n    }\n  }\n};\n\n// src/capture/script/walker/lists-counters.ts\nvar createListsCountersHandler = ({ normColor, resolveCounterStyle, isCustomCounterStyle, measureFontMetrics }) => {\n  const captureListsCounters = (el, cs, tag) => {\n    const isListItem = cs.display != null && cs.display.includes(\"list-item\");\n    let listMarkerIntrinsic = void 0;\n    let listItemIndex = void 0;\n    let markerFirstLineDy = void 0;\n    let markerFirstLineHeight = void 0;\n    if (isListItem) {\n      try {\n        const liTop = el.getBoundingClientRect().top;\n        const range = document.createRange();\n        range.selectNodeContents(el);\n        const rects = range.getClientRects();\n        if (rects.length > 0) {\n          markerFirstLineDy = rects[0].top - liTop;\n          markerFirstLineHeight = rects[0].height;\n        }\n      } catch (e) {\n      }\n      if (cs.listStyleImage && cs.listStyleImage !== \"none\") {\n        const u = /^url\\((?:\"|')?([^\"')]+)/.exec(cs.listStyleImage);\n        if (u != null) {\n          const img = new Image();\n          img.src = u[1];\n          if (img.naturalWidth > 0) listMarkerIntrinsic = { w: img.naturalWidth, h: img.naturalHeight };\n        }\n      }\n      const parent = el.parentElement;\n      if (parent != null) {\n        if (tag === \"li\") {\n          const siblings = Array.from(parent.children).filter((c) => c.tagName.toLowerCase() === \"li\");\n          const parentTag = parent.tagName.toLowerCase();\n          const reversed = parentTag === \"ol\" && parent.hasAttribute(\"reversed\");\n          let start = 1;\n          if (parentTag === \"ol\" && parent.hasAttribute(\"start\")) start = parseInt(parent.getAttribute(\"start\"), 10) || 1;\n          if (reversed) start = siblings.length;\n          let cur = start;\n          for (const s of siblings) {\n            if (s.hasAttribute(\"value\")) cur = parseInt(s.getAttribute(\"value\"), 10) || cur;\n            if (s === el) {\n              listItemIndex = cur;\n              break;\n            }\n            cur += reversed ? -1 : 1;\n          }\n        } else {\n          let cur = 1;\n          for (const s of parent.children) {\n            const sd = window.getComputedStyle(s).display;\n            if (sd != null && sd.includes(\"list-item\")) {\n              if (s === el) {\n                listItemIndex = cur;\n                break;\n              }\n              cur += 1;\n            }\n          }\n        }\n      }\n    }\n    const markerCs = isListItem ? window.getComputedStyle(el, \"::marker\") : null;\n    let markerContent = markerCs ? markerCs.content : void 0;\n    if (isListItem && resolveCounterStyle != null && listItemIndex != null) {\n      const lsType = cs.listStyleType;\n      const isCustom = lsType != null && isCustomCounterStyle != null && isCustomCounterStyle(lsType);\n      const noAuthorContent = markerContent == null || markerContent === \"\" || markerContent === \"normal\";\n      if (isCustom && noAuthorContent) {\n        const resolved = resolveCounterStyle(lsType, listItemIndex);\n        if (resolved != null) {\n          markerContent = '\"' + resolved.replace(/\\\\/g, \"\\\\\\\\\").replace(/\"/g, '\\\\\"') + '\"';\n        }\n      }\n    }\n    return {\n      listMarkerIntrinsic,\n      listItemIndex,\n      markerColor: markerCs ? normColor(markerCs.color) : void 0,\n      markerFontWeight: markerCs ? markerCs.fontWeight : void 0,\n      markerFontSize: markerCs ? markerCs.fontSize : void 0,\n      markerFontAscent: markerCs ? measureFontMetrics(markerCs).ascent : void 0,\n      markerContent,\n      markerFontFamily: markerCs ? markerCs.fontFamily : void 0,\n      markerFirstLineDy,\n      markerFirstLineHeight\n    };\n  };\n  return { captureListsCounters };\n};\n\n// src/capture/script/walker/replaced-elements.ts\nvar createReplacedElementsHandler = ({ vp }) => {\n  let _replacedIdx = 0;\n  const handleReplacedElement = (el, cs, tag, rect, captured, bordersOnlyCell) => {\n    if (bordersOnlyCell || cs.display === \"none\" || rect.width <= 0 || rect.height <= 0) return;\n    const isCustomEl = tag.indexOf(\"-\") > 0;\n    const hasOpenShadow = isCustomEl && el.shadowRoot != null;\n    const customElNeedsSnapshot = isCustomEl && hasOpenShadow;\n    const iframeRecursed = tag === \"iframe\" && captured._iframeRecursed === true;\n    if (tag === \"iframe\" && !iframeRecursed || tag === \"canvas\" || tag === \"video\" || tag === \"object\" || tag === \"embed\" || customElNeedsSnapshot) {\n      const { left: bl, right: br, top: bt, bottom: bb } = sideWidths(cs, \"border\", \"Width\");\n      const pl = parseFloat(cs.paddingLeft) || 0;\n      const pr = parseFloat(cs.paddingRight) || 0;\n      const pt = parseFloat(cs.paddingTop) || 0;\n      const pb = parseFloat(cs.paddingBottom) || 0;\n      const cw = rect.width - bl - br - pl - pr;\n      const ch = rect.height - bt - bb - pt - pb;\n      if (cw > 0 && ch > 0) {\n        const rid = \"dr\" + _replacedIdx++;\n        el.setAttribute(\"data-domotion-rid\", rid);\n        captured.replacedSnapshot = {\n          x: rect.left - vp.x + bl + pl,\n          y: rect.top - vp.y + bt + pt,\n          width: cw,\n          height: ch,\n          rid\n        };\n      }\n    }\n    if (captured.replacedSnapshot != null || captured.imageSrc != null) return;\n    const ti = parseFloat(cs.textIndent) || 0;\n    const ovX = cs.overflowX === \"hidden\" || cs.overflow === \"hidden\";\n    const hasBgImage = hasCssValue(cs.backgroundImage);\n    const phark = ti <= -1e3;\n    const modern = ti < 0 && ovX && cs.whiteSpace === \"nowrap\";\n    if ((phark || modern) && hasBgImage) {\n      const rid = \"dr\" + _replacedIdx++;\n      el.setAttribute(\"data-domotion-rid\", rid);\n      const titleText = (el.getAttribute && el.getAttribute(\"aria-label\") || captured.text || \"\").trim();\n      captured.replacedSnapshot = {\n        x: rect.left - vp.x,\n        y: rect.top - vp.y,\n        width: rect.width,\n        height: rect.height,\n        rid\n      };\n      captured.imageReplacement = { titleText };\n      captured.styles.backgroundImage = void 0;\n      captured.text = \"\";\n      captured.textSegments = void 0;\n    }\n  };\n  return { handleReplacedElement };\n};\n\n// src/capture/script/walker/masks-clips.ts\nvar createMasksClipsHandler = ({ vp, warn }) => {\n  const maskDefs = /* @__PURE__ */ new Map();\n  const maskRasters = /* @__PURE__ */ new Map();\n  const clipPathDefs = /* @__PURE__ */ new Map();\n  let maskRasterIdx = 0;\n  const computeMaskIntrinsic = (el, cs) => {\n    const primed = el && el.__domotionMaskIntrinsic;\n    if (Array.isArray(primed)) return primed;\n    const maskImage = cs.maskImage || cs.webkitMaskImage || \"\";\n    if (maskImage === \"\" || maskImage === \"none\") return [];\n    const layers = [];\n    let depth = 0, start = 0;\n    for (let i = 0; i < maskImage.length; i++) {\n      const ch = maskImage[i];\n      if (ch === \"(\") depth++;\n      else if (ch === \")\") depth--;\n      else if (ch === \",\" && depth === 0) {\n        layers.push(maskImage.slice(start, i));\n        start = i + 1;\n      }\n    }\n    layers.push(maskImage.slice(start));\n    return layers.map((layer) => {\n      const url = extractCssUrl(layer);\n      if (url == null) return null;\n      const image = new Image();\n      image.src = url;\n      const w = image.naturalWidth || 0;\n      const h = image.naturalHeight || 0;\n      return w > 0 && h > 0 ? { w, h, ratio: w / h } : null;\n    });\n  };\n  const discoverMasks = (el, cs, sel) => {\n    if (!cs.mask || cs.mask === \"none\" || cs.mask === \"\") return;\n    const doc = el.ownerDocument || document;\n    const miSrc = cs.maskImage || cs.webkitMaskImage || \"\";\n    const fragMatch = /^url\\(\\s*(?:\"|')?#([^\"')\\s]+)(?:\"|')?\\s*\\)$/i.exec(miSrc);\n    if (fragMatch != null) {\n      const fragId = fragMatch[1];\n      if (!maskDefs.has(fragId)) {\n        const target = doc.getElementById(fragId);\n        if (target != null && target.tagName.toLowerCase() === \"mask\") {\n          maskDefs.set(fragId, { id: fragId, outerHTML: target.outerHTML });\n        } else {\n          warn(sel, \"mask\", 'mask-image fragment \"#' + fragId + '\" did not resolve to an inline <mask> element');\n        }\n      }\n      return;\n    }\n    const extFragMatch = /^url\\(\\s*(?:\"|')?[^\"')#]+#[^\"')\\s]+(?:\"|')?\\s*\\)$/i.exec(miSrc);\n    if (extFragMatch != null) {\n      warn(sel, \"mask\", 'external-file SVG mask-image fragment ref (url(\"./file.svg#id\")) could not be resolved \\u2014 element renders unmasked');\n      return;\n    }\n    const elementMatch = /^element\\(\\s*#([^)\\s]+)\\s*\\)$/i.exec(miSrc);\n    if (elementMatch != null) {\n      const refId = elementMatch[1];\n      if (maskRasters.has(refId)) return;\n      const refTarget = doc.getElementById(refId);\n      if (refTarget == null) {\n        warn(sel, \"mask\", \"mask-image: element(#\" + refId + \") target not found in document\");\n        return;\n      }\n      const refCs = window.getComputedStyle(refTarget);\n      if (refCs.display === \"none\" || refCs.visibility === \"hidden\") {\n        warn(sel, \"mask\", \"mask-image: element(#\" + refId + \") target is display:none / hidden \\u2014 emitting empty mask\");\n        maskRasters.set(refId, null);\n        return;\n      }\n      const refRect = refTarget.getBoundingClientRect();\n      if (refRect.width <= 0 || refRect.height <= 0) {\n        warn(sel, \"mask\", \"mask-image: element(#\" + refId + \") target has zero-area painted box \\u2014 emitting empty mask\");\n        maskRasters.set(refId, null);\n        return;\n      }\n      if (typeof refTarget.getAnimations === \"function\") {\n        try {\n          const anims = refTarget.getAnimations();\n          if (anims != null && anims.length > 0) {\n            warn(sel, \"mask\", \"mask-image: element(#\" + refId + \") target has \" + anims.length + \" active animation(s); the rasterized snapshot is t=0 only\");\n          }\n        } catch (e) {\n        }\n      }\n      const refRid = \"mr\" + maskRasterIdx++;\n      refTarget.setAttribute(\"data-domotion-rid\", refRid);\n      maskRasters.set(refId, {\n        id: refId,\n        rid: refRid,\n        width: refRect.width,\n        height: refRect.height,\n        rect: {\n          x: refRect.left - vp.x,\n          y: refRect.top - vp.y,\n          width: refRect.width,\n          height: refRect.height\n        }\n      });\n      return;\n    }\n    const supported = /^(?:repeating-)?(?:linear|radial)-gradient\\(/i.test(miSrc) || /^url\\(/i.test(miSrc);\n    if (!supported) {\n      warn(sel, \"mask\", \"non-gradient/non-url()/non-element() mask source \\u2014 not emitted\");\n    }\n  };\n  const discoverClipPaths = (el, cs, sel) => {\n    const cp = cs.clipPath;\n    if (!cp || cp === \"none\" || cp === \"\") return;\n    const doc = el.ownerDocument || document;\n    const cpShape = cp.replace(/\\b(?:content-box|padding-box|border-box|margin-box|fill-box|stroke-box|view-box)\\b/i, \"\").trim();\n    const fragMatch = /^url\\(\\s*(?:\"|')?#([^\"')\\s]+)(?:\"|')?\\s*\\)$/i.exec(cpShape);\n    if (fragMatch != null) {\n      const fragId = fragMatch[1];\n      if (!clipPathDefs.has(fragId)) {\n        const target = doc.getElementById(fragId);\n        if (target != null && target.tagName.toLowerCase() === \"clippath\") {\n          const units = (target.getAttribute(\"clipPathUnits\") || \"userSpaceOnUse\").toLowerCase();\n          clipPathDefs.set(fragId, {\n            id: fragId,\n            outerHTML: target.outerHTML,\n            clipPathUnits: units === \"objectboundingbox\" ? \"objectBoundingBox\" : \"userSpaceOnUse\"\n          });\n        } else {\n          warn(sel, \"clip-path\", 'clip-path fragment \"#' + fragId + '\" did not resolve to an inline <clipPath> element');\n        }\n      }\n      return;\n    }\n    const extFragMatch = /^url\\(\\s*(?:\"|')?[^\"')#]+#[^\"')\\s]+(?:\"|')?\\s*\\)$/i.exec(cpShape);\n    if (extFragMatch != null) {\n      warn(sel, \"clip-path\", 'external-file SVG fragment ref (url(\"./file.svg#id\")) could not be resolved \\u2014 element renders unclipped');\n    }\n  };\n  const filterDefs = /* @__PURE__ */ new Map();\n  let urlFilterRasterIdx = 0;\n  const filterContainsConvolveMatrix = (filter, seen) => {\n    if (filter == null || seen.has(filter)) return false;\n    seen.add(filter);\n    const descendants = filter.getElementsByTagName(\"*\");\n    for (let i = 0; i < descendants.length; i++) {\n      if ((descendants[i].localName || \"\").toLowerCase() === \"feconvolvematrix\") return true;\n    }\n    const href = filter.getAttribute(\"href\") || filter.getAttributeNS(\"http://www.w3.org/1999/xlink\", \"href\") || \"\";\n    if (!href.startsWith(\"#\")) return false;\n    const inherited = filter.ownerDocument.getElementById(href.slice(1));\n    return inherited != null && inherited.localName.toLowerCase() === \"filter\" && filterContainsConvolveMatrix(inherited, seen);\n  };\n  const discoverFilters = (el, cs, sel) => {\n    const f = cs.filter;\n    if (!f || f === \"none\" || f === \"\") return void 0;\n    const doc = el.ownerDocument || document;\n    let needsSourceRaster = false;\n    const re = /url\\(\\s*(?:\"|')?#([^\"')\\s]+)(?:\"|')?\\s*\\)/gi;\n    let m;\n    while ((m = re.exec(f)) != null) {\n      const fragId = m[1];\n      const target = doc.getElementById(fragId);\n      if (target != null && target.tagName.toLowerCase() === \"filter\") {\n        if (!filterDefs.has(fragId)) filterDefs.set(fragId, { id: fragId, outerHTML: target.outerHTML });\n        if (el.namespaceURI === \"http://www.w3.org/1999/xhtml\" && filterContainsConvolveMatrix(target, /* @__PURE__ */ new Set())) {\n          needsSourceRaster = true;\n        }\n      } else {\n        warn(sel, \"filter\", 'filter fragment \"#' + fragId + '\" did not resolve to an inline <filter> element');\n      }\n    }\n    if (!needsSourceRaster) return void 0;\n    const token = \"uf\" + urlFilterRasterIdx++;\n    el.setAttribute(\"data-domotion-url-filter-raster\", token);\n    return token;\n  };\n  return { discoverMasks, computeMaskIntrinsic, discoverClipPaths, discoverFilters, maskDefs, maskRasters, clipPathDefs, filterDefs };\n};\n\n// src/capture/script/walker/form-controls.ts\nvar createFormControlsHandler = ({ normColor, resolvePseudo }) => {\n  const captureFormControls = (el, cs, tag) => {\n    const mk = tag === \"details\" ? (() => {\n      const sum = el.querySelector(\":scope > summary\");\n      if (sum == null) return { suppressed: false };\n      if (window.getComputedStyle(sum).listStyleType === \"none\") return { suppressed: true };\n      const mcs = window.getComputedStyle(sum, \"::marker\");\n      const mc = mcs.color;\n      if (mc === \"transparent\") return { suppressed: true };\n      const am = /^rgba\\(\\s*[0-9.]+\\s*,\\s*[0-9.]+\\s*,\\s*[0-9.]+\\s*,\\s*([0-9.]+)\\s*\\)$/.exec(mc);\n      if (am != null && parseFloat(am[1]) === 0) return { suppressed: true };\n      return {\n        suppressed: false,\n        color: normColor(mc),\n        fontSize: parseFloat(mcs.fontSize) || void 0,\n        inside: mcs.listStylePosition === \"inside\"\n      };\n    })() : null;\n    const out = {\n      inputType: tag === \"input\" ? el.type || \"text\" : void 0,\n      // CSS appearance / -webkit-appearance longhand for inputs. When 'none'\n      // (the appearance:none custom-styled pattern) the renderer suppresses\n      // its UA-default checkbox / radio chrome so the host's author-styled\n      // border + background show through, with only the :checked indicator\n      // overlaid on top. DM-285.\n      inputAppearance: tag === \"input\" ? cs.webkitAppearance || cs.appearance || \"\" : void 0,\n      checked: tag === \"input\" && (el.type === \"checkbox\" || el.type === \"radio\") ? !!el.checked : void 0,\n      indeterminate: tag === \"input\" && el.type === \"checkbox\" ? !!el.indeterminate : void 0,\n      disabled: tag === \"input\" || tag === \"button\" || tag === \"select\" || tag === \"textarea\" ? !!el.disabled : void 0,\n      progressValue: tag === \"progress\" ? el.hasAttribute(\"value\") ? +el.value : void 0 : void 0,\n      progressMax: tag === \"progress\" ? el.max || 1 : void 0,\n      meterValue: tag === \"meter\" ? el.value != null ? +el.value : void 0 : void 0,\n      meterMin: tag === \"meter\" ? el.min || 0 : void 0,\n      meterMax: tag === \"meter\" ? el.max || 1 : void 0,\n      meterLow: tag === \"meter\" ? el.low != null ? +el.low : void 0 : void 0,\n      meterHigh: tag === \"meter\" ? el.high != null ? +el.high : void 0 : void 0,\n      meterOptimum: tag === \"meter\" ? el.optimum != null ? +el.optimum : void 0 : void 0,\n      detailsOpen: tag === \"details\" ? !!el.open : void 0,\n      // Detect if author CSS hid the summary's UA disclosure marker. If so,\n      // skip painting our own triangle — the author's custom marker (typically\n      // a ::before / ::after pseudo) is the only one that should show.\n      //   - `list-style: none` / `list-style-type: none` removes the disclosure\n      //     marker entirely (the marker IS a list-item ::marker with\n      //     list-style-type `disclosure-closed`/`disclosure-open`; setting it to\n      //     `none` drops it, exactly as for a styled <li>). This is the common\n      //     idiom — `summary { list-style: none }` plus a custom ::after caret.\n      //     DM-1115. Note `display: flex` on the summary does NOT itself suppress\n      //     the marker — Chrome still paints it when list-style-type is a\n      //     disclosure value, so we key off list-style-type, not display.\n      //   - `::marker { color: transparent }` is the other author technique for\n      //     hiding the UA triangle without changing the box model. DM-448.\n      summaryMarkerSuppressed: tag === \"details\" ? mk == null || mk.suppressed : void 0,\n      // DM-1123: when the disclosure marker IS shown, Chrome paints the\n      // triangle in the computed `::marker` color, at the `::marker` font-size,\n      // and (for the UA-default `list-style-position: inside`) at the summary's\n      // content-start — not in the summary's text color at a fixed 0.7em\n      // outside the padding. Capture those three so the renderer can match it.\n      summaryMarkerColor: mk != null && !mk.suppressed ? mk.color : void 0,\n      summaryMarkerFontSize: mk != null && !mk.suppressed ? mk.fontSize : void 0,\n      summaryMarkerInside: mk != null && !mk.suppressed ? mk.inside : void 0,\n      // DM-1152: `::details-content` (Chrome 131+) styles the disclosure body\n      // separately from the summary. When an OPEN <details> styles it with a\n      // border-top and/or background, Chrome paints a separator line +\n      // background over the content area below the summary — neither of which\n      // round-trips through plain element capture (the pseudo wraps the real\n      // content children rather than generating its own DOM node). Capture the\n      // border-top color/width + background so the renderer can synthesize the\n      // box; geometry is derived from the details + summary rects at render\n      // time. Only emitted when open AND the pseudo carries non-default paint.\n      detailsContentBox: tag === \"details\" && el.open ? (() => {\n        const dc = window.getComputedStyle(el, \"::details-content\");\n        const isPaint = (c) => c != null && c !== \"\" && c !== \"transparent\" && !/^rgba\\(\\s*[0-9.]+\\s*,\\s*[0-9.]+\\s*,\\s*[0-9.]+\\s*,\\s*0\\s*\\)$/.test(c);\n        const btw = parseFloat(dc.borderTopWidth) || 0;\n        const hasBorder = btw > 0 && isPaint(dc.borderTopColor);\n        const hasBg = isPaint(dc.backgroundColor);\n        if (!hasBorder && !hasBg) return void 0;\n        return {\n          borderTopWidth: hasBorder ? btw : 0,\n          borderTopColor: hasBorder ? normColor(dc.borderTopColor) : void 0,\n          bg: hasBg ? normColor(dc.backgroundColor) : void 0,\n          paddingBottom: parseFloat(cs.paddingBottom) || 0,\n          borderLeftWidth: parseFloat(cs.borderLeftWidth) || 0,\n          borderRightWidth: parseFloat(cs.borderRightWidth) || 0,\n          borderBottomWidth: parseFloat(cs.borderBottomWidth) || 0\n        };\n      })() : void 0,\n      // Native chevron only when the select keeps UA chrome — appearance:\n      // none means the page draws its own arrow via background-image, and\n      // we should not stack our default chevron on top. DM-308.\n      selectChevron: tag === \"select\" && el.size <= 1 && !el.multiple && cs.appearance !== \"none\" && cs.webkitAppearance !== \"none\",\n      selectDisplayText: tag === \"select\" && el.size <= 1 && !el.multiple ? el.selectedOptions && el.selectedOptions.length > 0 ? (el.selectedOptions[0].textContent || \"\").trim() : el.options && el.options.length > 0 ? (el.options[0].textContent || \"\").trim() : \"\" : void 0,\n      // Listbox-mode selects (size > 1 or multiple) flatten their option /\n      // optgroup children into a captured row list. The renderer walks this\n      // list and paints one row per entry inside the select's content rect.\n      // Optgroup labels are emitted as italic+bold rows that don't count\n      // against selection. DM-282.\n      selectListboxOptions: tag === \"select\" && (el.size > 1 || el.multiple) ? (function() {\n        const list = [];\n        const hostRect = el.getBoundingClientRect();\n        const row = (o, extra) => {\n          const ocs = window.getComputedStyle(o);\n          const or = o.getBoundingClientRect();\n          const canvas = document.createElement(\"canvas\");\n          const ctx = canvas.getContext(\"2d\");\n          let fontAscent;\n          if (ctx != null) {\n            ctx.font = `${ocs.fontStyle} ${ocs.fontWeight} ${ocs.fontSize} ${ocs.fontFamily}`;\n            fontAscent = ctx.measureText(\"Mxgp\").fontBoundingBoxAscent;\n          }\n          return {\n            text: (o.textContent || \"\").trim(),\n            selected: !!o.selected,\n            disabled: !!o.disabled,\n            ...extra,\n            // Unlike closed-select shadow parts, listbox OPTION elements\n            // expose real layout rects and computed author paint. Capture\n            // those browser-resolved facts instead of rebuilding row\n            // height and :checked styling from host-font heuristics.\n            x: or.left - hostRect.left,\n            y: or.top - hostRect.top,\n            width: or.width,\n            height: or.height,\n            backgroundColor: normColor(ocs.backgroundColor),\n            color: normColor(ocs.color),\n            paddingLeft: parseFloat(ocs.paddingLeft) || 0,\n            paddingTop: parseFloat(ocs.paddingTop) || 0,\n            fontSize: parseFloat(ocs.fontSize) || void 0,\n            fontFamily: ocs.fontFamily || void 0,\n            fontWeight: ocs.fontWeight || void 0,\n            fontStyle: ocs.fontStyle || void 0,\n            fontAscent\n          };\n        };\n        const kids = el.children;\n        for (let ki = 0; ki < kids.length; ki++) {\n          const c = kids[ki];\n          if (c.tagName === \"OPTGROUP\") {\n            list.push(row(c, { text: c.label || \"\", selected: false, isOptgroupLabel: true }));\n            const og = c.children;\n            for (let gi = 0; gi < og.length; gi++) {\n              const o = og[gi];\n              if (o.tagName !== \"OPTION\") continue;\n              list.push(row(o, { isOptgroupChild: true }));\n            }\n          } else if (c.tagName === \"OPTION\") {\n            list.push(row(c, {}));\n          }\n        }\n        return list;\n      })() : void 0,\n      accentColor: tag === \"input\" || tag === \"progress\" || tag === \"meter\" ? normColor(cs.accentColor || \"auto\") : void 0,\n      caretColor: tag === \"input\" || tag === \"textarea\" ? normColor(cs.caretColor || \"auto\") : void 0,\n      inputValue: tag === \"input\" ? el.value || \"\" : void 0,\n      inputMin: tag === \"input\" ? el.min || \"\" : void 0,\n      inputMax: tag === \"input\" ? el.max || \"\" : void 0,\n      inputStep: tag === \"input\" ? el.step || \"\" : void 0,\n      inputMultiple: tag === \"input\" ? !!el.multiple : void 0,\n      inputFileName: tag === \"input\" && el.type === \"file\" && el.files && el.files.length > 0 ? el.files[0].name : void 0\n    };\n    if (tag === \"progress\") {\n      const bar = resolvePseudo(el, \"progress-bar\");\n      const val = resolvePseudo(el, \"progress-value\");\n      out.progressBarBg = bar.matched && bar.backgroundColor !== \"\" ? normColor(bar.backgroundColor) : void 0;\n      out.progressBarBgImage = bar.matched && bar.backgroundImage !== \"\" ? bar.backgroundImage : void 0;\n      out.progressBarRadius = bar.matched && bar.borderRadius !== \"\" ? bar.borderRadius : void 0;\n      out.progressValueBg = val.matched && val.backgroundColor !== \"\" ? normColor(val.backgroundColor) : void 0;\n      out.progressValueBgImage = val.matched && val.backgroundImage !== \"\" ? val.backgroundImage : void 0;\n      out.progressValueRadius = val.matched && val.borderRadius !== \"\" ? val.borderRadius : void 0;\n    }\n    if (tag === \"meter\") {\n      const bar = resolvePseudo(el, \"meter-bar\");\n      const opt = resolvePseudo(el, \"meter-optimum\");\n      const sub = resolvePseudo(el, \"meter-suboptimum\");\n      const elg = resolvePseudo(el, \"meter-even-less-good\");\n      out.meterBarBg = bar.matched && bar.backgroundColor !== \"\" ? normColor(bar.backgroundColor) : void 0;\n      out.meterBarBgImage = bar.matched && bar.backgroundImage !== \"\" ? bar.backgroundImage : void 0;\n      out.meterBarRadius = bar.matched && bar.borderRadius !== \"\" ? bar.borderRadius : void 0;\n      out.meterOptimumBg = opt.matched && opt.backgroundColor !== \"\" ? normColor(opt.backgroundColor) : void 0;\n      out.meterOptimumBgImage = opt.matched && opt.backgroundImage !== \"\" ? opt.backgroundImage : void 0;\n      out.meterSuboptimumBg = sub.matched && sub.backgroundColor !== \"\" ? normColor(sub.backgroundColor) : void 0;\n      out.meterSuboptimumBgImage = sub.matched && sub.backgroundImage !== \"\" ? sub.backgroundImage : void 0;\n      out.meterEvenLessGoodBg = elg.matched && elg.backgroundColor !== \"\" ? normColor(elg.backgroundColor) : void 0;\n      out.meterEvenLessGoodBgImage = elg.matched && elg.backgroundImage !== \"\" ? elg.backgroundImage : void 0;\n    }\n    if (tag === \"input\" && el.type === \"color\") {\n      const swatch = resolvePseudo(el, \"color-swatch\");\n      const wrap = resolvePseudo(el, \"color-swatch-wrapper\");\n      out.colorSwatchBg = swatch.matched && swatch.backgroundColor !== \"\" ? normColor(swatch.backgroundColor) : void 0;\n      out.colorSwatchBgImage = swatch.matched && swatch.backgroundImage !== \"\" ? swatch.backgroundImage : void 0;\n      out.colorSwatchBorder = swatch.matched && swatch.border !== \"\" ? swatch.border : void 0;\n      out.colorSwatchRadius = swatch.matched && swatch.borderRadius !== \"\" ? swatch.borderRadius : void 0;\n      out.colorSwatchWrapperPadding = wrap.matched && wrap.padding !== \"\" ? wrap.padding : void 0;\n    }\n    if (tag === \"input\" && el.type === \"number\") {\n      const spin = resolvePseudo(el, \"inner-spin-button\");\n      out.numberSpinButtonBg = spin.matched && spin.backgroundColor !== \"\" ? normColor(spin.backgroundColor) : void 0;\n      out.numberSpinButtonBorder = spin.matched && spin.border !== \"\" ? spin.border : void 0;\n      out.numberSpinButtonRadius = spin.matched && spin.borderRadius !== \"\" ? spin.borderRadius : void 0;\n    }\n    if (tag === \"input\" && el.type === \"search\") {\n      const cancel = resolvePseudo(el, \"search-cancel-button\");\n      out.searchCancelButtonBg = cancel.matched && cancel.backgroundColor !== \"\" ? normColor(cancel.backgroundColor) : void 0;\n      out.searchCancelButtonBorder = cancel.matched && cancel.border !== \"\" ? cancel.border : void 0;\n      out.searchCancelButtonRadius = cancel.matched && cancel.borderRadius !== \"\" ? cancel.borderRadius : void 0;\n    }\n    if (tag === \"input\" && el.type === \"range\") {\n      const ts = resolvePseudo(el, \"track\");\n      const ms = resolvePseudo(el, \"thumb\");\n      const elAppearance = cs.webkitAppearance || cs.appearance;\n      const customAppearance = elAppearance === \"none\";\n      const styledTrack = ts.matched || customAppearance;\n      const styledThumb = ms.matched || customAppearance;\n      out.rangeTrackBg = styledTrack && ts.backgroundColor !== \"\" ? normColor(ts.backgroundColor) : styledTrack ? \"rgba(0, 0, 0, 0)\" : void 0;\n      out.rangeTrackHeight = styledTrack ? ts.height : void 0;\n      out.rangeTrackRadius = styledTrack ? ts.borderRadius : void 0;\n      out.rangeTrackBgImage = styledTrack && ts.backgroundImage !== \"\" ? ts.backgroundImage : void 0;\n      out.rangeThumbBg = styledThumb && ms.backgroundColor !== \"\" ? normColor(ms.backgroundColor) : styledThumb ? \"rgba(0, 0, 0, 0)\" : void 0;\n      out.rangeThumbWidth = styledThumb ? ms.width : void 0;\n      out.rangeThumbHeight = styledThumb ? ms.height : void 0;\n      out.rangeThumbRadius = styledThumb ? ms.borderRadius : void 0;\n      out.rangeThumbBgImage = styledThumb && ms.backgroundImage !== \"\" ? ms.backgroundImage : void 0;\n      out.rangeTrackBorder = styledTrack && ts.border !== \"\" ? ts.border : void 0;\n      out.rangeThumbBorder = styledThumb && ms.border !== \"\" ? ms.border : void 0;\n      out.rangeThumbBoxShadow = styledThumb && ms.boxShadow !== \"\" ? ms.boxShadow : void 0;\n    }\n    if (tag === \"input\" && el.type === \"file\") {\n      const pseudoCs = window.getComputedStyle(el, \"::file-selector-button\");\n      out.fileButtonBg = normColor(pseudoCs.backgroundColor);\n      out.fileButtonColor = normColor(pseudoCs.color);\n      out.fileButtonBorder = pseudoCs.border;\n      out.fileButtonBorderRadius = pseudoCs.borderRadius;\n      out.fileButtonPadding = pseudoCs.padding;\n      out.fileButtonFontWeight = pseudoCs.fontWeight;\n      out.fileButtonFontSize = pseudoCs.fontSize;\n      out.fileButtonFontFamily = pseudoCs.fontFamily;\n      out.fileButtonMarginRight = pseudoCs.marginRight;\n      const c = document.createElement(\"canvas\");\n      const ctx = c.getContext(\"2d\");\n      if (ctx != null) {\n        const weight = pseudoCs.fontWeight || \"400\";\n        const size = pseudoCs.fontSize || \"13px\";\n        const family = pseudoCs.fontFamily || \"sans-serif\";\n        ctx.font = weight + \" \" + size + \" \" + family;\n        const label = el.multiple ? \"Choose Files\" : \"Choose File\";\n        out.fileButtonLabelWidth = ctx.measureText(label).width;\n      }\n    }\n    return out;\n  };\n  return { captureFormControls };\n};\n\n// src/capture/script/walker/transforms.ts\nvar transformHasRotationOrSkew = (transformStr) => {\n  if (!transformStr || transformStr === \"none\") return false;\n  const m2 = /^matrix\\(\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)/.exec(transformStr);\n  if (m2) {\n    const b = parseFloat(m2[2]);\n    const c = parseFloat(m2[3]);\n    return Math.abs(b) > 1e-6 || Math.abs(c) > 1e-6;\n  }\n  const m3 = /^matrix3d\\(\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)\\s*,\\s*[-\\d.eE]+\\s*,\\s*[-\\d.eE]+\\s*,\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)/.exec(transformStr);\n  if (m3) {\n    const b = parseFloat(m3[2]);\n    const c = parseFloat(m3[3]);\n    return Math.abs(b) > 1e-6 || Math.abs(c) > 1e-6;\n  }\n  if (/\\brotate(?:[XYZ])?\\(/.test(transformStr)) return true;\n  if (/\\bskew(?:[XY])?\\(/.test(transformStr)) return true;\n  return false;\n};\nvar composeEffectiveTransform = (cs) => {\n  const t = cs.translate;\n  const r = cs.rotate;\n  const s = cs.scale;\n  const tr = cs.transform;\n  const hasT = t && t !== \"none\";\n  const hasR = r && r !== \"none\";\n  const hasS = s && s !== \"none\";\n  const hasTr = tr && tr !== \"none\";\n  if (!hasT && !hasR && !hasS && !hasTr) return \"none\";\n  if (!hasT && !hasR && !hasS) return tr;\n  let m = new DOMMatrix();\n  if (hasT) {\n    const ts = t.split(/\\s+/).map((v) => parseFloat(v));\n    const tx = isFinite(ts[0]) ? ts[0] : 0;\n    const ty = ts.length > 1 && isFinite(ts[1]) ? ts[1] : 0;\n    const tz = ts.length > 2 && isFinite(ts[2]) ? ts[2] : 0;\n    m = m.translate(tx, ty, tz);\n  }\n  if (hasR) {\n    const tokens = r.trim().split(/\\s+/);\n    const last = tokens[tokens.length - 1];\n    const angleDeg = parseAngleToDeg(last);\n    if (tokens.length === 4) {\n      const ax = parseFloat(tokens[0]);\n      const ay = parseFloat(tokens[1]);\n      const az = parseFloat(tokens[2]);\n      m = m.rotateAxisAngle(ax, ay, az, angleDeg);\n    } else {\n      m = m.rotate(angleDeg);\n    }\n  }\n  if (hasS) {\n    const ts = s.trim().split(/\\s+/).map((v) => parseFloat(v));\n    const sx = isFinite(ts[0]) ? ts[0] : 1;\n    const sy = ts.length > 1 && isFinite(ts[1]) ? ts[1] : sx;\n    const sz = ts.length > 2 && isFinite(ts[2]) ? ts[2] : 1;\n    m = m.scale(sx, sy, sz);\n  }\n  if (hasTr) {\n    try {\n      m = m.multiply(new DOMMatrix(tr));\n    } catch {\n    }\n  }\n  if (m.is2D) {\n    return `matrix(${m.a}, ${m.b}, ${m.c}, ${m.d}, ${m.e}, ${m.f})`;\n  }\n  return `matrix3d(${m.m11}, ${m.m12}, ${m.m13}, ${m.m14}, ${m.m21}, ${m.m22}, ${m.m23}, ${m.m24}, ${m.m31}, ${m.m32}, ${m.m33}, ${m.m34}, ${m.m41}, ${m.m42}, ${m.m43}, ${m.m44})`;\n};\nvar parseAngleToDeg = (a) => {\n  const m = /^([-+]?\\d*\\.?\\d+(?:[eE][-+]?\\d+)?)(deg|rad|grad|turn)?$/.exec(a);\n  if (!m) return 0;\n  const n = parseFloat(m[1]);\n  const u = m[2] || \"deg\";\n  if (u === \"deg\") return n;\n  if (u === \"rad\") return n * 180 / Math.PI;\n  if (u === \"grad\") return n * 360 / 400;\n  if (u === \"turn\") return n * 360;\n  return n;\n};\nvar createTransformsHandler = () => {\n  const wrapWithFrozenTransform = (el, cs, captureInner) => {\n    const originalTransform = composeEffectiveTransform(cs);\n    const hasTransform = originalTransform && originalTransform !== \"none\";\n    if (!hasTransform) {\n      return captureInner(el, cs, null, null);\n    }\n    const needsFreeze = transformHasRotationOrSkew(originalTransform) || /\\brotate\\b/.test(originalTransform) || /\\bskew/.test(originalTransform);\n    if (needsFreeze) {\n      const inlineTransform = el.style.transform;\n      const inlineRotate = el.style.rotate;\n      const inlineScale = el.style.scale;\n      const inlineTranslate = el.style.translate;\n      el.style.transform = \"translate(0)\";\n      el.style.rotate = \"none\";\n      el.style.scale = \"none\";\n      el.style.translate = \"none\";\n      try {\n        return captureInner(el, cs, originalTransform, cs.transformOrigin);\n      } finally {\n        el.style.transform = inlineTransform;\n        el.style.rotate = inlineRotate;\n        el.style.scale = inlineScale;\n        el.style.translate = inlineTranslate;\n      }\n    }\n    return captureInner(el, cs, originalTransform, cs.transformOrigin);\n  };\n  const threadFrozenTransform = (cs, frozenTransform, _frozenTransformOrigin) => ({\n    // For elements with rotation/skew, record the ORIGINAL transform so the\n    // renderer wraps a `<g transform=...>` around the (un-rotated) captured\n    // rect. For pure translate/scale (or no transform), record `'none'` so\n    // the renderer skips the wrap and paints the rect at its captured (=live)\n    // position directly. frozenTransform is non-null whenever the element\n    // originally had a non-none transform; we only stash the rotation/skew\n    // string back into styles.transform.\n    transform: frozenTransform != null && transformHasRotationOrSkew(frozenTransform) ? frozenTransform : \"none\",\n    transformOrigin: cs.transformOrigin,\n    // DM-751: extract `matrix3d` translateZ so the paint-order sort can\n    // honor 3D Z position when the parent element has\n    // `transform-style: preserve-3d` (which sorts children by Z in 3D\n    // space, not by z-index per CSS Transforms 2 §6). We can't represent\n    // perspective / actual 3D rendering in SVG; this is paint-order only.\n    translateZ: (function() {\n      const tt = cs.transform;\n      if (tt == null || tt === \"none\" || tt === \"\") return void 0;\n      const m3 = /^matrix3d\\(([^)]+)\\)/.exec(tt);\n      if (m3 == null) return void 0;\n      const parts = m3[1].split(\",\").map((s) => parseFloat(s.trim()));\n      const tz = parts[14];\n      return Number.isFinite(tz) && tz !== 0 ? tz : void 0;\n    })(),\n    // DM-587: separately flag elements that ORIGINALLY had a non-none\n    // transform — even though we discard the value to suppress the wrap,\n    // CSS Transforms 2 §4 says any non-none transform creates a stacking\n    // context, and `establishesStackingContext` needs to know that for\n    // z-index ordering (e.g. a `transform: translate(0)` on a positioned\n    // element creates an SC that traps its descendants' z-index resolution).\n    // `frozenTransform != null` is true exactly when the live cs.transform\n    // was non-none at capture time.\n    transformCreatesSc: frozenTransform != null\n  });\n  return { wrapWithFrozenTransform, threadFrozenTransform };\n};\n\n// src/capture/script/walker/collapsed-border.ts\nvar COLLAPSED_BORDER_STYLE_RANK = {\n  none: 0,\n  inset: 2,\n  groove: 3,\n  outset: 4,\n  ridge: 5,\n  dotted: 6,\n  dashed: 7,\n  solid: 8,\n  double: 9\n};\nfunction collapsedBorderStyle(style) {\n  if (style === \"inset\") return \"ridge\";\n  if (style === \"outset\") return \"groove\";\n  return style;\n}\nfunction physicalSidesForTable(writingMode, direction) {\n  if (writingMode === \"horizontal-tb\") {\n    return {\n      blockStart: \"top\",\n      blockEnd: \"bottom\",\n      inlineStart: direction === \"ltr\" ? \"left\" : \"right\",\n      inlineEnd: direction === \"ltr\" ? \"right\" : \"left\"\n    };\n  }\n  const blockStart = writingMode === \"vertical-rl\" || writingMode === \"sideways-rl\" ? \"right\" : \"left\";\n  return {\n    blockStart,\n    blockEnd: blockStart === \"right\" ? \"left\" : \"right\",\n    inlineStart: direction === \"ltr\" ? \"top\" : \"bottom\",\n    inlineEnd: direction === \"ltr\" ? \"bottom\" : \"top\"\n  };\n}\nvar emptyEdge = () => ({ winner: null, doNotFill: false });\nfunction createCollapsedBorderGrid(rows, columns) {\n  return {\n    rows,\n    columns,\n    rowAxis: Array.from({ length: rows + 1 }, () => Array.from({ length: columns }, () => emptyEdge())),\n    columnAxis: Array.from({ length: rows }, () => Array.from({ length: columns + 1 }, () => emptyEdge()))\n  };\n}\nfunction shouldReplaceCollapsedEdge(source, edge) {\n  if (edge.doNotFill) return false;\n  const current = edge.winner;\n  if (current == null || source.style === \"hidden\") return true;\n  if (current.style === \"hidden\") return false;\n  if (source.w !== current.w) return source.w > current.w;\n  return (COLLAPSED_BORDER_STYLE_RANK[source.style] ?? 0) > (COLLAPSED_BORDER_STYLE_RANK[current.style] ?? 0);\n}\nfunction mergeCollapsedEdge(edge, source) {\n  if (source == null || source.style === \"none\") return;\n  if (shouldReplaceCollapsedEdge(source, edge)) edge.winner = source;\n}\nfunction mergeCollapsedBorderBox(grid, row, column, rowspan, colspan, physical, writingMode, direction, markSpanInteriors = false) {\n  const rowEnd = Math.min(grid.rows, row + rowspan);\n  const columnEnd = Math.min(grid.columns, column + colspan);\n  if (row < 0 || column < 0 || row >= rowEnd || column >= columnEnd) return;\n  const logical = physicalSidesForTable(writingMode, direction);\n  for (let c = column; c < columnEnd; c++) {\n    mergeCollapsedEdge(grid.rowAxis[row][c], physical[logical.blockStart] ?? null);\n    mergeCollapsedEdge(grid.rowAxis[rowEnd][c], physical[logical.blockEnd] ?? null);\n  }\n  for (let r = row; r < rowEnd; r++) {\n    mergeCollapsedEdge(grid.columnAxis[r][column], physical[logical.inlineStart] ?? null);\n    mergeCollapsedEdge(grid.columnAxis[r][columnEnd], physical[logical.inlineEnd] ?? null);\n  }\n  if (!markSpanInteriors || rowEnd - row <= 1 && columnEnd - column <= 1) return;\n  for (let r = row; r < rowEnd; r++) {\n    for (let c = column + 1; c < columnEnd; c++) {\n      const edge = grid.columnAxis[r][c];\n      if (edge.winner == null) edge.doNotFill = true;\n    }\n  }\n  for (let r = row + 1; r < rowEnd; r++) {\n    for (let c = column; c < columnEnd; c++) {\n      const edge = grid.rowAxis[r][c];\n      if (edge.winner == null) edge.doNotFill = true;\n    }\n  }\n}\nvar canPaintCollapsedEdge = (edge) => edge?.winner != null && edge.winner.style !== \"none\" && edge.winner.style !== \"hidden\" && edge.winner.w > 0;\nfunction compareCollapsedEdgesForPaint(lhs, rhs) {\n  const lp = canPaintCollapsedEdge(lhs), rp = canPaintCollapsedEdge(rhs);\n  if (lp && rp) {\n    if (lhs.winner.w !== rhs.winner.w) return lhs.winner.w > rhs.winner.w ? 1 : -1;\n    if (lhs.winner.style === rhs.winner.style) {\n      if (lhs.winner.order === rhs.winner.order) return 0;\n      return lhs.winner.order < rhs.winner.order ? 1 : -1;\n    }\n    return (COLLAPSED_BORDER_STYLE_RANK[lhs.winner.style] ?? 0) > (COLLAPSED_BORDER_STYLE_RANK[rhs.winner.style] ?? 0) ? 1 : -1;\n  }\n  if (!lp && !rp) return 0;\n  return lp ? 1 : -1;\n}\nvar winnerWidth = (edge) => canPaintCollapsedEdge(edge) ? edge.winner.w : 0;\nvar edgeAt = (rows, row, column) => row >= 0 && row < rows.length && column >= 0 && column < rows[row].length ? rows[row][column] : null;\nvar collapsedBorderPaintIndex = (rect, columns) => rect.row * (columns + 1) * 2 + rect.column * 2 + (rect.axis === \"row\" ? 1 : 0);\nfunction jointDecision(before, after, over, under, axis, end, overFragmentBoundary = false, underFragmentBoundary = false) {\n  if (!end) {\n    if (overFragmentBoundary) over = null;\n    if (underFragmentBoundary && axis === \"row\") under = null;\n  } else {\n    if (overFragmentBoundary && axis === \"row\") over = null;\n    if (underFragmentBoundary) under = null;\n  }\n  const inlineCompare = compareCollapsedEdgesForPaint(before, after);\n  const inlineWinner = inlineCompare === 1 ? before : after;\n  const blockCompare = compareCollapsedEdgesForPaint(over, under);\n  const blockWinner = blockCompare === 1 ? over : under;\n  const inlineVsBlock = compareCollapsedEdgesForPaint(inlineWinner, blockWinner);\n  const wins = axis === \"row\" ? inlineVsBlock !== -1 && inlineCompare !== (end ? -1 : 1) : inlineVsBlock !== 1 && blockCompare !== (end ? -1 : 1);\n  const blockWidthSuppressed = !end ? overFragmentBoundary || underFragmentBoundary && axis === \"row\" : overFragmentBoundary && axis === \"row\" || underFragmentBoundary;\n  return {\n    inlineWidth: winnerWidth(blockWinner),\n    blockWidth: blockWidthSuppressed ? 0 : winnerWidth(inlineWinner),\n    wins\n  };\n}\nfunction collapsedBorderFragmentLogicalRects(grid, inlineLines, sections) {\n  if (inlineLines.length !== grid.columns + 1)\n    throw new Error(\"collapsed-border inline tracks do not match the edge grid\");\n  const rects = [];\n  let previousPaintedRow = null;\n  for (const section of sections) {\n    const sectionRectStart = rects.length;\n    const lines = section.blockLines;\n    if (lines.length < 2) continue;\n    const finalRowEdge = section.rowStart + lines.length - 1;\n    for (let tableRow = section.rowStart; tableRow <= finalRowEdge; tableRow++) {\n      const localRow = tableRow - section.rowStart;\n      const startRow = localRow === 0;\n      const endRow = localRow === lines.length - 1;\n      const startFragmented = startRow && section.startRowFragmented === true;\n      const endFragmented = endRow && section.endRowFragmented === true;\n      const overBoundary = startRow && section.hasContentBefore === true;\n      const underBoundary = endRow && section.hasContentAfter === true;\n      if (!startFragmented && !endFragmented && previousPaintedRow !== tableRow) {\n        for (let column = 0; column < grid.columns; column++) {\n          const edge = edgeAt(grid.rowAxis, tableRow, column);\n          if (!canPaintCollapsedEdge(edge)) continue;\n          const start = jointDecision(\n            edgeAt(grid.rowAxis, tableRow, column - 1),\n            edge,\n            edgeAt(grid.columnAxis, tableRow - 1, column),\n            edgeAt(grid.columnAxis, tableRow, column),\n            \"row\",\n            false,\n            overBoundary,\n            underBoundary\n          );\n          const end = jointDecision(\n            edge,\n            edgeAt(grid.rowAxis, tableRow, column + 1),\n            edgeAt(grid.columnAxis, tableRow - 1, column + 1),\n            edgeAt(grid.columnAxis, tableRow, column + 1),\n            \"row\",\n            true,\n            overBoundary,\n            underBoundary\n          );\n          let inlineStart = inlineLines[column];\n          let inlineSize = inlineLines[column + 1] - inlineStart;\n          const startDelta = start.inlineWidth / 2;\n          inlineStart += start.wins ? -startDelta : startDelta;\n          inlineSize += start.wins ? startDelta : -startDelta;\n          const endDelta = end.inlineWidth / 2;\n          inlineSize += end.wins ? endDelta : -endDelta;\n          const width = edge.winner.w;\n          rects.push({\n            axis: \"row\",\n            row: tableRow,\n            column,\n            inlineStart,\n            blockStart: overBoundary ? lines[localRow] : lines[localRow] - width / 2,\n            inlineSize,\n            blockSize: overBoundary || underBoundary ? width / 2 : width,\n            winner: edge.winner\n          });\n        }\n      }\n      if (localRow + 1 >= lines.length) continue;\n      const endSegmentRow = localRow + 1 === lines.length - 1;\n      const endSegmentFragmented = endSegmentRow && section.endRowFragmented === true;\n      const underSegmentBoundary = endSegmentRow && section.hasContentAfter === true;\n      for (let column = 0; column <= grid.columns; column++) {\n        const edge = edgeAt(grid.columnAxis, tableRow, column);\n        if (!canPaintCollapsedEdge(edge)) continue;\n        const start = jointDecision(\n          edgeAt(grid.rowAxis, tableRow, column - 1),\n          edgeAt(grid.rowAxis, tableRow, column),\n          edgeAt(grid.columnAxis, tableRow - 1, column),\n          edge,\n          \"column\",\n          false,\n          overBoundary,\n          underSegmentBoundary\n        );\n        const end = jointDecision(\n          edgeAt(grid.rowAxis, tableRow + 1, column - 1),\n          edgeAt(grid.rowAxis, tableRow + 1, column),\n          edge,\n          edgeAt(grid.columnAxis, tableRow + 1, column),\n          \"column\",\n          true,\n          overBoundary,\n          underSegmentBoundary\n        );\n        let blockStart = lines[localRow];\n        let blockSize = lines[localRow + 1] - blockStart;\n        if (!startFragmented) {\n          const delta = start.blockWidth / 2;\n          blockStart += start.wins ? -delta : delta;\n          blockSize += start.wins ? delta : -delta;\n        }\n        if (!endSegmentFragmented) {\n          const delta = end.blockWidth / 2;\n          blockSize += end.wins ? delta : -delta;\n        }\n        rects.push({\n          axis: \"column\",\n          row: tableRow,\n          column,\n          inlineStart: inlineLines[column] - edge.winner.w / 2,\n          blockStart,\n          inlineSize: edge.winner.w,\n          blockSize,\n          winner: edge.winner\n        });\n      }\n    }\n    const sectionRects = rects.splice(sectionRectStart);\n    sectionRects.sort((a, b) => collapsedBorderPaintIndex(a, grid.columns) - collapsedBorderPaintIndex(b, grid.columns));\n    rects.push(...sectionRects);\n    previousPaintedRow = section.endRowFragmented ? null : finalRowEdge;\n  }\n  return rects;\n}\nfunction collapsedBorderLogicalRects(grid, inlineLines, blockLines) {\n  if (inlineLines.length !== grid.columns + 1 || blockLines.length !== grid.rows + 1)\n    throw new Error(\"collapsed-border track coordinates do not match the edge grid\");\n  const rects = [];\n  for (let row = 0; row <= grid.rows; row++) {\n    for (let column = 0; column < grid.columns; column++) {\n      const edge = grid.rowAxis[row][column];\n      if (!canPaintCollapsedEdge(edge)) continue;\n      const start = jointDecision(\n        edgeAt(grid.rowAxis, row, column - 1),\n        edge,\n        edgeAt(grid.columnAxis, row - 1, column),\n        edgeAt(grid.columnAxis, row, column),\n        \"row\",\n        false\n      );\n      const end = jointDecision(\n        edge,\n        edgeAt(grid.rowAxis, row, column + 1),\n        edgeAt(grid.columnAxis, row - 1, column + 1),\n        edgeAt(grid.columnAxis, row, column + 1),\n        \"row\",\n        true\n      );\n      let inlineStart = inlineLines[column];\n      let inlineSize = inlineLines[column + 1] - inlineStart;\n      const startDelta = start.inlineWidth / 2;\n      inlineStart += start.wins ? -startDelta : startDelta;\n      inlineSize += start.wins ? startDelta : -startDelta;\n      const endDelta = end.inlineWidth / 2;\n      inlineSize += end.wins ? endDelta : -endDelta;\n      rects.push({ axis: \"row\", row, column, inlineStart, blockStart: blockLines[row] - edge.winner.w / 2, inlineSize, blockSize: edge.winner.w, winner: edge.winner });\n    }\n  }\n  for (let row = 0; row < grid.rows; row++) {\n    for (let column = 0; column <= grid.columns; column++) {\n      const edge = grid.columnAxis[row][column];\n      if (!canPaintCollapsedEdge(edge)) continue;\n      const start = jointDecision(\n        edgeAt(grid.rowAxis, row, column - 1),\n        edgeAt(grid.rowAxis, row, column),\n        edgeAt(grid.columnAxis, row - 1, column),\n        edge,\n        \"column\",\n        false\n      );\n      const end = jointDecision(\n        edgeAt(grid.rowAxis, row + 1, column - 1),\n        edgeAt(grid.rowAxis, row + 1, column),\n        edge,\n        edgeAt(grid.columnAxis, row + 1, column),\n        \"column\",\n        true\n      );\n      let blockStart = blockLines[row];\n      let blockSize = blockLines[row + 1] - blockStart;\n      const startDelta = start.blockWidth / 2;\n      blockStart += start.wins ? -startDelta : startDelta;\n      blockSize += start.wins ? startDelta : -startDelta;\n      const endDelta = end.blockWidth / 2;\n      blockSize += end.wins ? endDelta : -endDelta;\n      rects.push({ axis: \"column\", row, column, inlineStart: inlineLines[column] - edge.winner.w / 2, blockStart, inlineSize: edge.winner.w, blockSize, winner: edge.winner });\n    }\n  }\n  rects.sort((a, b) => collapsedBorderPaintIndex(a, grid.columns) - collapsedBorderPaintIndex(b, grid.columns));\n  return rects;\n}\n\n// src/capture/script/walker/borders-backgrounds.ts\nvar physicalComputedPaintLength = (value, effectiveZoom) => {\n  if (effectiveZoom === 1) return value;\n  const number = parseFloat(value);\n  if (!Number.isFinite(number)) return value;\n  return `${Math.round(number * effectiveZoom * 1e6) / 1e6}px`;\n};\nvar physicalComputedTileSize = (value, effectiveZoom) => {\n  if (effectiveZoom === 1) return value;\n  return value.replace(/(-?(?:\\d+(?:\\.\\d+)?|\\.\\d+))px\\b/g, (_match, number) => `${Math.round(parseFloat(number) * effectiveZoom * 1e6) / 1e6}px`);\n};\nvar tableGridRectFromCaptions = (tableRect, writingMode, captions) => {\n  const vertical = /^(?:vertical|sideways)-/.test(writingMode);\n  const blockReverse = writingMode === \"vertical-rl\" || writingMode === \"sideways-rl\";\n  const blockExtent = vertical ? tableRect.width : tableRect.height;\n  const logicalEdges = (rect) => {\n    if (!vertical) return { start: rect.top - tableRect.top, end: rect.bottom - tableRect.top };\n    if (blockReverse) return { start: tableRect.right - rect.right, end: tableRect.right - rect.left };\n    return { start: rect.left - tableRect.left, end: rect.right - tableRect.left };\n  };\n  let blockStart = 0;\n  let blockEnd = blockExtent;\n  let sawBottom = false;\n  for (const caption of captions) {\n    const edges = logicalEdges(caption.rect);\n    if (caption.side === \"bottom\") {\n      if (!sawBottom) {\n        blockEnd = edges.start - caption.marginBlockStart;\n        sawBottom = true;\n      }\n    } else {\n      blockStart = edges.end + caption.marginBlockEnd;\n    }\n  }\n  if (!vertical) {\n    return {\n      x: tableRect.left,\n      y: tableRect.top + blockStart,\n      width: tableRect.width,\n      height: blockEnd - blockStart\n    };\n  }\n  return {\n    x: blockReverse ? tableRect.right - blockEnd : tableRect.left + blockStart,\n    y: tableRect.top,\n    width: blockEnd - blockStart,\n    height: tableRect.height\n  };\n};\nvar createBordersBackgroundsHandler = ({ normColor, normGradientColors, resolvePlaceholderShownBg, resolveCornerRadius, effectiveZoomFor = () => 1, warn = () => {\n}, shortSelector = () => \"\", vp = { x: 0, y: 0 } }) => {\n  const isUaColorBorder = (tag, el, cs, side) => tag === \"input\" && el.type === \"color\" && normColor(cs[side], cs.color).replace(/\\s+/g, \"\") === \"rgb(0,0,0)\";\n  const tintedBorderColor = (tag, el, cs, side) => isUaColorBorder(tag, el, cs, side) ? \"rgb(118,118,118)\" : normColor(cs[side], cs.color);\n  const pseudoCreatesInflowFragment = (el, pseudo) => {\n    const styleWindow = el.ownerDocument?.defaultView ?? window;\n    const pcs = styleWindow.getComputedStyle(el, pseudo);\n    const content = pcs.content;\n    return content != null && content !== \"\" && content !== \"none\" && content !== \"normal\" && pcs.display !== \"none\" && pcs.position !== \"absolute\" && pcs.position !== \"fixed\";\n  };\n  const nodeCreatesInflowFragment = (node) => {\n    if (node.nodeType === 3) {\n      const range = node.ownerDocument.createRange();\n      range.selectNodeContents(node);\n      const hasFragment = range.getClientRects().length > 0;\n      if (range.detach) range.detach();\n      return hasFragment;\n    }\n    if (node.nodeType !== 1) return false;\n    const styleWindow = node.ownerDocument?.defaultView ?? window;\n    const ncs = styleWindow.getComputedStyle(node);\n    if (ncs.display === \"none\" || ncs.position === \"absolute\" || ncs.position === \"fixed\") return false;\n    if (ncs.display !== \"contents\") return true;\n    if (pseudoCreatesInflowFragment(node, \"::before\")) return true;\n    for (const child of node.childNodes) if (nodeCreatesInflowFragment(child)) return true;\n    return pseudoCreatesInflowFragment(node, \"::after\");\n  };\n  const tableCellHasInflowFragments = (cell) => {\n    if (pseudoCreatesInflowFragment(cell, \"::before\")) return true;\n    for (const child of cell.childNodes) if (nodeCreatesInflowFragment(child)) return true;\n    return pseudoCreatesInflowFragment(cell, \"::after\");\n  };\n  const isTableCellHiddenByEmptyCells = (el, cs, tag) => (tag === \"td\" || tag === \"th\") && cs.borderCollapse !== \"collapse\" && cs.emptyCells === \"hide\" && !tableCellHasInflowFragments(el);\n  const resolveTableGridRect = (el, cs, tag, rect) => {\n    if (tag !== \"table\") return void 0;\n    const captions = [];\n    for (const child of el.children) {\n      const styleWindow = child.ownerDocument?.defaultView ?? window;\n      const ccs = styleWindow.getComputedStyle(child);\n      if (ccs.display !== \"table-caption\") continue;\n      const captionRect = child.getBoundingClientRect();\n      const zoom = effectiveZoomFor(child);\n      const vertical = /^(?:vertical|sideways)-/.test(cs.writingMode);\n      const blockReverse = cs.writingMode === \"vertical-rl\" || cs.writingMode === \"sideways-rl\";\n      const marginBlockStart = parseFloat(vertical ? blockReverse ? ccs.marginRight : ccs.marginLeft : ccs.marginTop) * zoom || 0;\n      const marginBlockEnd = parseFloat(vertical ? blockReverse ? ccs.marginLeft : ccs.marginRight : ccs.marginBottom) * zoom || 0;\n      captions.push({\n        rect: captionRect,\n        side: ccs.captionSide === \"bottom\" ? \"bottom\" : \"top\",\n        marginBlockStart,\n        marginBlockEnd\n      });\n    }\n    if (captions.length === 0) return void 0;\n    const grid = tableGridRectFromCaptions(rect, cs.writingMode, captions);\n    return { x: grid.x - vp.x, y: grid.y - vp.y, width: grid.width, height: grid.height };\n  };\n  const computeFrostedBgFallback = (cs) => {\n    const bdf = cs.backdropFilter || cs.webkitBackdropFilter || \"\";\n    if (bdf === \"\" || bdf === \"none\") return void 0;\n    const bgCol = normColor(cs.backgroundColor, cs.color);\n    let a = 1;\n    const m = /rgba?\\(\\s*[^,)\\s]+[ ,]+[^,)\\s]+[ ,]+[^,)\\s]+(?:[ ,/]+([^)]+))?\\)/.exec(bgCol);\n    if (m != null && m[1] != null) {\n      const av = parseFloat(m[1]);\n      if (!isNaN(av)) a = av;\n    }\n    if (a > 0.1) return void 0;\n    const bodyBg = normColor(window.getComputedStyle(document.body).backgroundColor);\n    let bodyA = 1;\n    const bm = /rgba?\\(\\s*[^,)\\s]+[ ,]+[^,)\\s]+[ ,]+[^,)\\s]+(?:[ ,/]+([^)]+))?\\)/.exec(bodyBg);\n    if (bm != null && bm[1] != null) {\n      const bav = parseFloat(bm[1]);\n      if (!isNaN(bav)) bodyA = bav;\n    }\n    return bodyA <= 0.1 ? \"rgb(255,255,255)\" : bodyBg;\n  };\n  const computeBackgroundImages = (el, cs) => {\n    const bgImage = cs.backgroundImage;\n    if (bgImage == null || bgImage === \"none\" || bgImage === \"\") return void 0;\n    const records = el && el.__domotionBackgroundImages;\n    if (!Array.isArray(records)) {\n      warn(shortSelector(el), \"background-image\", \"capture-time selected-image sizing record was unavailable\");\n      return void 0;\n    }\n    const recordWarnings = [];\n    for (const record of records) {\n      if (record == null || record.warning == null) continue;\n      recordWarnings.push(\"layer \" + record.layerIndex + \": \" + record.warning);\n    }\n    if (recordWarnings.length > 0) {\n      warn(shortSelector(el), \"background-image\", recordWarnings.join(\"; \"));\n    }\n    return records;\n  };\n  const computeBorderImageIntrinsic = (cs, dim) => {\n    const url = extractCssUrl(cs.borderImageSource || \"\");\n    if (url == null) return void 0;\n    const img = new Image();\n    img.src = url;\n    return img[dim] || void 0;\n  };\n  const resolveCollapsedTableRects = (table) => {\n    if (table.__dmCollapsedBorderRects !== void 0) return table.__dmCollapsedBorderRects;\n    const tableCs = getComputedStyle(table);\n    if (tableCs.borderCollapse !== \"collapse\") return table.__dmCollapsedBorderRects = null;\n    const writingMode = tableCs.writingMode || \"horizontal-tb\";\n    const direction = tableCs.direction === \"rtl\" ? \"rtl\" : \"ltr\";\n    const sectionEls = Array.from(table.children).filter((x) => x.tagName === \"THEAD\" || x.tagName === \"TBODY\" || x.tagName === \"TFOOT\");\n    const directRows = Array.from(table.children).filter((x) => x.tagName === \"TR\");\n    const rowEntries = [];\n    if (directRows.length) for (const row of directRows) rowEntries.push({ row, section: null, sectionIndex: -1 });\n    for (let sectionIndex = 0; sectionIndex < sectionEls.length; sectionIndex++) {\n      for (const row of Array.from(sectionEls[sectionIndex].children).filter((x) => x.tagName === \"TR\")) rowEntries.push({ row, section: sectionEls[sectionIndex], sectionIndex });\n    }\n    if (!rowEntries.length) return table.__dmCollapsedBorderRects = null;\n    const occupancy = [], cells = [], sections = /* @__PURE__ */ new Map();\n    let columns = 0;\n    for (let r = 0; r < rowEntries.length; r++) {\n      occupancy[r] || (occupancy[r] = []);\n      const entry = rowEntries[r];\n      if (entry.section != null) {\n        const current = sections.get(entry.section);\n        if (current == null) sections.set(entry.section, { start: r, count: 1 });\n        else current.count++;\n      }\n      let c = 0;\n      for (const cell of Array.from(entry.row.children).filter((x) => x.tagName === \"TD\" || x.tagName === \"TH\")) {\n        while (occupancy[r][c] != null) c++;\n        const colspan = Math.max(1, cell.colSpan || 1);\n        let rowspan = Math.max(1, cell.rowSpan || 1);\n        if (entry.section != null) {\n          const sectionRows = Array.from(entry.section.children).filter((x) => x.tagName === \"TR\");\n          const localRow = sectionRows.indexOf(entry.row);\n          rowspan = Math.min(rowspan, sectionRows.length - localRow);\n        } else rowspan = Math.min(rowspan, rowEntries.length - r);\n        const meta = { cell, row: r, column: c, rowspan, colspan };\n        cells.push(meta);\n        for (let rr = r; rr < r + rowspan; rr++) {\n          occupancy[rr] || (occupancy[rr] = []);\n          for (let cc = c; cc < c + colspan; cc++) occupancy[rr][cc] = meta;\n        }\n        c += colspan;\n        columns = Math.max(columns, c);\n      }\n    }\n    if (!columns) return table.__dmCollapsedBorderRects = null;\n    const grid = createCollapsedBorderGrid(rowEntries.length, columns);\n    let boxOrder = 0;\n    const physicalBorders = (node, order) => {\n      const cs = getComputedStyle(node);\n      const zoom = effectiveZoomFor(node);\n      const one = (side) => ({\n        side: side.toLowerCase(),\n        order,\n        w: parseFloat(physicalComputedPaintLength(cs[\"border\" + side + \"Width\"], zoom)) || 0,\n        style: collapsedBorderStyle(cs[\"border\" + side + \"Style\"]),\n        color: normColor(cs[\"border\" + side + \"Color\"], cs.color)\n      });\n      return { top: one(\"Top\"), right: one(\"Right\"), bottom: one(\"Bottom\"), left: one(\"Left\") };\n    };\n    for (const meta of cells) mergeCollapsedBorderBox(grid, meta.row, meta.column, meta.rowspan, meta.colspan, physicalBorders(meta.cell, ++boxOrder), writingMode, direction, true);\n    for (let r = 0; r < rowEntries.length; r++) mergeCollapsedBorderBox(grid, r, 0, 1, columns, physicalBorders(rowEntries[r].row, ++boxOrder), writingMode, direction);\n    for (const [section, span] of sections) mergeCollapsedBorderBox(grid, span.start, 0, span.count, columns, physicalBorders(section, ++boxOrder), writingMode, direction);\n    const columnEntries = [];\n    for (const child of Array.from(table.children)) {\n      if (child.tagName === \"COL\") {\n        columnEntries.push({ col: child, group: null, start: columnEntries.length, span: Math.max(1, child.span || 1) });\n      } else if (child.tagName === \"COLGROUP\") {\n        const start = columnEntries.reduce((n, item) => Math.max(n, item.start + item.span), 0);\n        const cols = Array.from(child.children).filter((x) => x.tagName === \"COL\");\n        if (!cols.length) columnEntries.push({ col: null, group: child, start, span: Math.max(1, child.span || 1) });\n        else {\n          let at = start;\n          for (const col of cols) {\n            const span = Math.max(1, col.span || 1);\n            columnEntries.push({ col, group: child, start: at, span });\n            at += span;\n          }\n        }\n      }\n    }\n    const columnOrder = ++boxOrder;\n    for (const entry of columnEntries) if (entry.col != null) mergeCollapsedBorderBox(grid, 0, entry.start, rowEntries.length, entry.span, physicalBorders(entry.col, columnOrder), writingMode, direction);\n    const groupOrder = ++boxOrder;\n    const groupsSeen = /* @__PURE__ */ new Set();\n    for (const entry of columnEntries) if (entry.group != null && !groupsSeen.has(entry.group)) {\n      groupsSeen.add(entry.group);\n      const members = columnEntries.filter((x) => x.group === entry.group);\n      const start = Math.min(...members.map((x) => x.start));\n      const end = Math.max(...members.map((x) => x.start + x.span));\n      mergeCollapsedBorderBox(grid, 0, start, rowEntries.length, end - start, physicalBorders(entry.group, groupOrder), writingMode, direction);\n    }\n    mergeCollapsedBorderBox(grid, 0, 0, rowEntries.length, columns, physicalBorders(table, ++boxOrder), writingMode, direction);\n    const tableRect = table.getBoundingClientRect();\n    const trackLines = (samples, fallbackEnd) => {\n      const lines = samples.map((values) => {\n        if (!values.length) return null;\n        values.sort((a, b) => a - b);\n        const mid = Math.floor(values.length / 2);\n        return values.length % 2 ? values[mid] : (values[mid - 1] + values[mid]) / 2;\n      });\n      if (lines[0] == null) lines[0] = 0;\n      if (lines[lines.length - 1] == null) lines[lines.length - 1] = fallbackEnd;\n      for (let i = 1; i < lines.length - 1; i++) if (lines[i] == null) {\n        let hi = i + 1;\n        while (hi < lines.length && lines[hi] == null) hi++;\n        lines[i] = lines[i - 1] + (lines[hi] - lines[i - 1]) / (hi - i + 1);\n      }\n      return lines;\n    };\n    const tableFragments = Array.from(table.getClientRects()).filter((rect) => rect.width > 0 && rect.height > 0);\n    if (tableFragments.length > 1) {\n      const overlapArea = (a, b) => Math.max(0, Math.min(a.right, b.right) - Math.max(a.left, b.left)) * Math.max(0, Math.min(a.bottom, b.bottom) - Math.max(a.top, b.top));\n      const fragmentIndexFor = (rect) => {\n        let best = -1, area = 0;\n        for (let i = 0; i < tableFragments.length; i++) {\n          const candidate = overlapArea(rect, tableFragments[i]);\n          if (candidate > area) {\n            best = i;\n            area = candidate;\n          }\n        }\n        return best;\n      };\n      const horizontal2 = writingMode === \"horizontal-tb\";\n      const blockReverse2 = writingMode === \"vertical-rl\" || writingMode === \"sideways-rl\";\n      const repeatedSections = /* @__PURE__ */ new Map();\n      for (const section of sectionEls) {\n        if (section.tagName !== \"THEAD\" && section.tagName !== \"TFOOT\") continue;\n        const rects = Array.from(section.getClientRects());\n        const mapped = new Set(rects.map(fragmentIndexFor).filter((index) => index >= 0));\n        if (rects.length === tableFragments.length && tableFragments.length > 1 && mapped.size === 1) {\n          repeatedSections.set(section, { kind: section.tagName === \"THEAD\" ? \"header\" : \"footer\", sourceFragment: [...mapped][0] });\n        }\n      }\n      const translatedRect = (rect, dx, dy) => ({\n        x: rect.x + dx,\n        y: rect.y + dy,\n        left: rect.left + dx,\n        right: rect.right + dx,\n        top: rect.top + dy,\n        bottom: rect.bottom + dy,\n        width: rect.width,\n        height: rect.height\n      });\n      const fragmentRectsFor = (node, section) => {\n        const rects = Array.from(node.getClientRects());\n        const repeated = repeatedSections.get(section);\n        if (repeated == null || !rects.length) return rects.map((rect) => ({ rect, fragment: fragmentIndexFor(rect), repeated: false }));\n        const sourceRect = rects[0];\n        const sourceFragment = tableFragments[repeated.sourceFragment];\n        return tableFragments.map((target, fragment) => {\n          let dx, dy;\n          if (horizontal2) {\n            dx = target.left - sourceFragment.left;\n            dy = repeated.kind === \"header\" ? target.top - sourceFragment.top : target.bottom - sourceFragment.bottom;\n          } else {\n            dy = target.top - sourceFragment.top;\n            if (repeated.kind === \"header\") dx = blockReverse2 ? target.right - sourceFragment.right : target.left - sourceFragment.left;\n            else dx = blockReverse2 ? target.left - sourceFragment.left : target.right - sourceFragment.right;\n          }\n          return { rect: translatedRect(sourceRect, dx, dy), fragment, repeated: true };\n        });\n      };\n      const rowPieces = rowEntries.map((entry, row) => fragmentRectsFor(entry.row, entry.section).map((piece) => ({ rect: piece.rect, fragment: piece.fragment, repeated: piece.repeated, row, section: entry.section })).filter((piece) => piece.fragment >= 0));\n      const cellPieces = cells.map((meta) => fragmentRectsFor(meta.cell, rowEntries[meta.row].section).map((piece) => ({ rect: piece.rect, fragment: piece.fragment, meta })).filter((piece) => piece.fragment >= 0));\n      const sectionPieces = new Map(sectionEls.map((section) => [section, fragmentRectsFor(section, section)]));\n      const physicalRects2 = [];\n      for (let fragmentIndex = 0; fragmentIndex < tableFragments.length; fragmentIndex++) {\n        const fragmentRect = tableFragments[fragmentIndex];\n        const inlineReverse2 = direction === \"rtl\";\n        const logical = (rect) => ({\n          inlineStart: horizontal2 ? inlineReverse2 ? fragmentRect.right - rect.right : rect.left - fragmentRect.left : inlineReverse2 ? fragmentRect.bottom - rect.bottom : rect.top - fragmentRect.top,\n          inlineEnd: horizontal2 ? inlineReverse2 ? fragmentRect.right - rect.left : rect.right - fragmentRect.left : inlineReverse2 ? fragmentRect.bottom - rect.top : rect.bottom - fragmentRect.top,\n          blockStart: horizontal2 ? rect.top - fragmentRect.top : blockReverse2 ? fragmentRect.right - rect.right : rect.left - fragmentRect.left,\n          blockEnd: horizontal2 ? rect.bottom - fragmentRect.top : blockReverse2 ? fragmentRect.right - rect.left : rect.right - fragmentRect.left\n        });\n        const inlineSamples2 = Array.from({ length: columns + 1 }, () => []);\n        for (const pieces of cellPieces) for (const piece of pieces) if (piece.fragment === fragmentIndex) {\n          const coords = logical(piece.rect), meta = piece.meta;\n          inlineSamples2[meta.column].push(coords.inlineStart);\n          inlineSamples2[meta.column + meta.colspan].push(coords.inlineEnd);\n        }\n        const inlineExtent2 = horizontal2 ? fragmentRect.width : fragmentRect.height;\n        const inlineLines = trackLines(inlineSamples2, inlineExtent2);\n        const piecesHere = rowPieces.flat().filter((piece) => piece.fragment === fragmentIndex);\n        const sectionGroups = /* @__PURE__ */ new Map();\n        for (const piece of piecesHere) {\n          const key = piece.section ?? table;\n          let group = sectionGroups.get(key);\n          if (group == null) {\n            group = [];\n            sectionGroups.set(key, group);\n          }\n          group.push(piece);\n        }\n        const groups = Array.from(sectionGroups.values()).map((pieces) => {\n          pieces.sort((a, b) => logical(a.rect).blockStart - logical(b.rect).blockStart || a.row - b.row);\n          const first = pieces[0], last = pieces[pieces.length - 1];\n          const blockLines = pieces.map((piece) => logical(piece.rect).blockStart);\n          const sectionRect = first.section == null ? null : sectionPieces.get(first.section)?.find((piece) => piece.fragment === fragmentIndex)?.rect;\n          blockLines.push(sectionRect == null ? logical(last.rect).blockEnd : logical(sectionRect).blockEnd);\n          const firstPieceIndex = rowPieces[first.row].findIndex((piece) => piece === first);\n          const lastPieceIndex = rowPieces[last.row].findIndex((piece) => piece === last);\n          return {\n            rowStart: first.row,\n            blockLines,\n            startRowFragmented: !first.repeated && firstPieceIndex > 0,\n            endRowFragmented: !last.repeated && lastPieceIndex >= 0 && lastPieceIndex < rowPieces[last.row].length - 1\n          };\n        }).sort((a, b) => a.blockLines[0] - b.blockLines[0]);\n        for (let i = 0; i < groups.length; i++) {\n          groups[i].hasContentBefore = i === 0 && groups[i].rowStart > 0;\n          groups[i].hasContentAfter = i === groups.length - 1 && groups[i].rowStart + groups[i].blockLines.length < grid.rows + 1;\n        }\n        const logicalRects2 = collapsedBorderFragmentLogicalRects(grid, inlineLines, groups);\n        for (const rect of logicalRects2) {\n          let x, y, width, height;\n          if (horizontal2) {\n            x = inlineReverse2 ? fragmentRect.right - rect.inlineStart - rect.inlineSize : fragmentRect.left + rect.inlineStart;\n            y = fragmentRect.top + rect.blockStart;\n            width = rect.inlineSize;\n            height = rect.blockSize;\n          } else {\n            x = blockReverse2 ? fragmentRect.right - rect.blockStart - rect.blockSize : fragmentRect.left + rect.blockStart;\n            y = inlineReverse2 ? fragmentRect.bottom - rect.inlineStart - rect.inlineSize : fragmentRect.top + rect.inlineStart;\n            width = rect.blockSize;\n            height = rect.inlineSize;\n          }\n          const snap2 = (start, size) => {\n            const rounded = Math.round(start);\n            return { start: rounded, size: Math.max(0, Math.round(start + size) - rounded) };\n          };\n          const sx = snap2(x, width), sy = snap2(y, height);\n          if (sx.size > 0 && sy.size > 0) physicalRects2.push({ x: sx.start, y: sy.start, width: sx.size, height: sy.size, axis: rect.axis, style: rect.winner.style, color: rect.winner.color });\n        }\n      }\n      table.__dmCollapsedCells = new Set(cells.map((meta) => meta.cell));\n      table.__dmCollapsedBorderRects = physicalRects2;\n      return physicalRects2;\n    }\n    const inlineSamples = Array.from({ length: columns + 1 }, () => []);\n    const blockSamples = Array.from({ length: rowEntries.length + 1 }, () => []);\n    const horizontal = writingMode === \"horizontal-tb\";\n    const blockReverse = writingMode === \"vertical-rl\" || writingMode === \"sideways-rl\";\n    const inlineReverse = direction === \"rtl\";\n    for (const meta of cells) {\n      const rect = meta.cell.getBoundingClientRect();\n      const inlineStart = horizontal ? inlineReverse ? tableRect.right - rect.right : rect.left - tableRect.left : inlineReverse ? tableRect.bottom - rect.bottom : rect.top - tableRect.top;\n      const inlineEnd = horizontal ? inlineReverse ? tableRect.right - rect.left : rect.right - tableRect.left : inlineReverse ? tableRect.bottom - rect.top : rect.bottom - tableRect.top;\n      const blockStart = horizontal ? rect.top - tableRect.top : blockReverse ? tableRect.right - rect.right : rect.left - tableRect.left;\n      const blockEnd = horizontal ? rect.bottom - tableRect.top : blockReverse ? tableRect.right - rect.left : rect.right - tableRect.left;\n      inlineSamples[meta.column].push(inlineStart);\n      inlineSamples[meta.column + meta.colspan].push(inlineEnd);\n      blockSamples[meta.row].push(blockStart);\n      blockSamples[meta.row + meta.rowspan].push(blockEnd);\n    }\n    const inlineExtent = horizontal ? tableRect.width : tableRect.height;\n    const blockExtent = horizontal ? tableRect.height : tableRect.width;\n    const logicalRects = collapsedBorderLogicalRects(grid, trackLines(inlineSamples, inlineExtent), trackLines(blockSamples, blockExtent));\n    const snap = (start, size) => {\n      const rounded = Math.round(start);\n      return { start: rounded, size: Math.max(0, Math.round(start + size) - rounded) };\n    };\n    const physicalRects = logicalRects.map((rect) => {\n      let x, y, width, height;\n      if (horizontal) {\n        x = inlineReverse ? tableRect.right - rect.inlineStart - rect.inlineSize : tableRect.left + rect.inlineStart;\n        y = tableRect.top + rect.blockStart;\n        width = rect.inlineSize;\n        height = rect.blockSize;\n      } else {\n        x = blockReverse ? tableRect.right - rect.blockStart - rect.blockSize : tableRect.left + rect.blockStart;\n        y = inlineReverse ? tableRect.bottom - rect.inlineStart - rect.inlineSize : tableRect.top + rect.inlineStart;\n        width = rect.blockSize;\n        height = rect.inlineSize;\n      }\n      const sx = snap(x, width), sy = snap(y, height);\n      return { x: sx.start, y: sy.start, width: sx.size, height: sy.size, axis: rect.axis, style: rect.winner.style, color: rect.winner.color };\n    }).filter((rect) => rect.width > 0 && rect.height > 0);\n    table.__dmCollapsedCells = new Set(cells.map((meta) => meta.cell));\n    table.__dmCollapsedBorderRects = physicalRects;\n    return physicalRects;\n  };\n  const isCollapsedStructural = (tag, cs) => cs.borderCollapse === \"collapse\" && (tag === \"table\" || tag === \"tr\" || tag === \"thead\" || tag === \"tbody\" || tag === \"tfoot\" || tag === \"colgroup\" || tag === \"col\");\n  const captureBordersBackgrounds = (el, cs, tag, rect, isPlaceholderCapture, effectiveZoom = 1) => {\n    const backgroundImages = computeBackgroundImages(el, cs);\n    return {\n      tableGridRect: resolveTableGridRect(el, cs, tag, rect),\n      backgroundColor: (function() {\n        if (isPlaceholderCapture) {\n          const psBg = resolvePlaceholderShownBg(el);\n          if (psBg !== \"\") return normColor(psBg);\n        }\n        return normColor(cs.backgroundColor, cs.color);\n      })(),\n      borderColor: normColor(cs.borderColor, cs.color),\n      borderWidth: physicalComputedPaintLength(cs.borderWidth, effectiveZoom),\n      borderRadius: cs.borderRadius,\n      borderTopLeftRadius: resolveCornerRadius(cs.borderTopLeftRadius, rect.width, rect.height, effectiveZoom),\n      borderTopRightRadius: resolveCornerRadius(cs.borderTopRightRadius, rect.width, rect.height, effectiveZoom),\n      borderBottomRightRadius: resolveCornerRadius(cs.borderBottomRightRadius, rect.width, rect.height, effectiveZoom),\n      borderBottomLeftRadius: resolveCornerRadius(cs.borderBottomLeftRadius, rect.width, rect.height, effectiveZoom),\n      cornerTopLeftShape: cs.cornerTopLeftShape,\n      cornerTopRightShape: cs.cornerTopRightShape,\n      cornerBottomRightShape: cs.cornerBottomRightShape,\n      cornerBottomLeftShape: cs.cornerBottomLeftShape,\n      borderTopWidth: physicalComputedPaintLength(cs.borderTopWidth, effectiveZoom),\n      borderRightWidth: physicalComputedPaintLength(cs.borderRightWidth, effectiveZoom),\n      borderBottomWidth: physicalComputedPaintLength(cs.borderBottomWidth, effectiveZoom),\n      borderLeftWidth: physicalComputedPaintLength(cs.borderLeftWidth, effectiveZoom),\n      borderTopStyle: cs.borderTopStyle,\n      borderRightStyle: cs.borderRightStyle,\n      borderBottomStyle: cs.borderBottomStyle,\n      borderLeftStyle: cs.borderLeftStyle,\n      borderTopColor: tintedBorderColor(tag, el, cs, \"borderTopColor\"),\n      borderRightColor: tintedBorderColor(tag, el, cs, \"borderRightColor\"),\n      borderBottomColor: tintedBorderColor(tag, el, cs, \"borderBottomColor\"),\n      borderLeftColor: tintedBorderColor(tag, el, cs, \"borderLeftColor\"),\n      borderCollapse: cs.borderCollapse,\n      // DM-1260: full collapsed-border conflict resolution. For a cell, override\n      // each side with the resolved winning border (overlapping the adjacent cell's\n      // matching resolved side); for a collapsed structural element, suppress its\n      // box border (folded into the cells). Placed AFTER the per-side width/style/\n      // color fields above so it wins. Complex tables (no resolution) fall through.\n      ...(function() {\n        let collapsedTable = null;\n        if (cs.borderCollapse === \"collapse\") {\n          collapsedTable = tag === \"table\" ? el : el.closest && el.closest(\"table\");\n        }\n        const tableRects = collapsedTable != null ? resolveCollapsedTableRects(collapsedTable) : null;\n        if (tableRects != null && tag === \"table\") {\n          return {\n            collapsedBorderRects: tableRects,\n            borderTopStyle: \"none\",\n            borderRightStyle: \"none\",\n            borderBottomStyle: \"none\",\n            borderLeftStyle: \"none\",\n            borderTopWidth: \"0px\",\n            borderRightWidth: \"0px\",\n            borderBottomWidth: \"0px\",\n            borderLeftWidth: \"0px\",\n            borderWidth: \"0px\",\n            borderColor: \"rgba(0, 0, 0, 0)\"\n          };\n        }\n        if (tableRects != null && (isCollapsedStructural(tag, cs) || tag === \"td\" || tag === \"th\")) {\n          return {\n            borderTopStyle: \"none\",\n            borderRightStyle: \"none\",\n            borderBottomStyle: \"none\",\n            borderLeftStyle: \"none\",\n            borderTopWidth: \"0px\",\n            borderRightWidth: \"0px\",\n            borderBottomWidth: \"0px\",\n            borderLeftWidth: \"0px\",\n            borderWidth: \"0px\",\n            borderColor: \"rgba(0, 0, 0, 0)\"\n          };\n        }\n        if (isCollapsedStructural(tag, cs)) {\n          return {\n            borderTopStyle: \"none\",\n            borderRightStyle: \"none\",\n            borderBottomStyle: \"none\",\n            borderLeftStyle: \"none\",\n            borderTopWidth: \"0px\",\n            borderRightWidth: \"0px\",\n            borderBottomWidth: \"0px\",\n            borderLeftWidth: \"0px\",\n            // Also clear the shorthands — the renderer's legacy uniform-border path\n            // falls back to `borderWidth` / `borderColor` when the per-side parses\n            // resolve to a zero-width border, which would re-paint the structural box.\n            borderWidth: \"0px\",\n            borderColor: \"rgba(0, 0, 0, 0)\"\n          };\n        }\n        return {};\n      })(),\n      frostedBgFallback: computeFrostedBgFallback(cs),\n      backgroundImage: normGradientColors(cs.backgroundImage, cs.color),\n      backgroundSize: physicalComputedTileSize(cs.backgroundSize, effectiveZoom),\n      // Computed px terms are serialized before effective zoom, while the\n      // captured positioning/painting DOMRects are already physical. Blink's\n      // FillLayer stores zoomed Length values, so cross that boundary once here\n      // for position just as we already do for background-size.\n      backgroundPosition: physicalComputedTileSize(cs.backgroundPosition, effectiveZoom),\n      backgroundRepeat: cs.backgroundRepeat,\n      backgroundClip: cs.backgroundClip,\n      backgroundBlendMode: cs.backgroundBlendMode,\n      // DM-462: -webkit-text-fill-color is the property that actually makes\n      // the headline text transparent in the background-clip:text idiom\n      // (cs.color may still report a normal value).\n      webkitTextFillColor: cs.webkitTextFillColor || cs.WebkitTextFillColor || void 0,\n      // DM-749: Stripe's keynote-speaker headline pattern — a span with\n      // `background-image: <gradient>; background-clip: text; -webkit-text-\n      // fill-color: transparent` wraps a child div that holds the actual\n      // text. The gradient is on the parent but Chrome lets it paint through\n      // the child's glyphs because background-clip: text masks the gradient\n      // by the union of all descendant text shapes. When the element's own\n      // bg-image is none AND its text-fill-color is transparent AND an\n      // ancestor has background-clip: text with a gradient, capture that\n      // ancestor's gradient so the renderer can use it as the glyph fill.\n      ...(function() {\n        const ownTfc = cs.webkitTextFillColor || cs.WebkitTextFillColor || \"\";\n        if (!/^(rgba\\(0[^)]*?,\\s*0\\)|transparent)$/i.test(ownTfc.trim())) {\n          return { inheritedTextFillGradient: void 0 };\n        }\n        let p = el.parentElement;\n        let depth = 0;\n        while (p != null && depth < 8) {\n          const pcs = window.getComputedStyle(p);\n          const bc = (pcs.backgroundClip || \"\") + \" \" + (pcs.webkitBackgroundClip || \"\");\n          if (/\\btext\\b/i.test(bc) && pcs.backgroundImage && pcs.backgroundImage !== \"none\" && pcs.backgroundImage !== \"\") {\n            const prect = p.getBoundingClientRect();\n            return {\n              inheritedTextFillGradient: pcs.backgroundImage,\n              inheritedTextFillGradientRect: { x: prect.x, y: prect.y, width: prect.width, height: prect.height }\n            };\n          }\n          p = p.parentElement;\n          depth++;\n        }\n        return { inheritedTextFillGradient: void 0 };\n      })(),\n      // DM-719: `-webkit-text-stroke-width` / `-webkit-text-stroke-color` paint a\n      // stroke around each glyph outline. Captured so the renderer can add a\n      // `stroke` attribute to the text-path emission.\n      webkitTextStrokeWidth: cs.webkitTextStrokeWidth || cs.WebkitTextStrokeWidth || void 0,\n      webkitTextStrokeColor: cs.webkitTextStrokeColor || cs.WebkitTextStrokeColor || void 0,\n      paintOrder: cs.paintOrder || void 0,\n      backgroundOrigin: cs.backgroundOrigin,\n      backgroundAttachment: cs.backgroundAttachment,\n      backgroundImages,\n      // Compatibility projection only. The selected candidate and complete\n      // natural-sizing state live in backgroundImages.\n      backgroundIntrinsic: (() => {\n        return backgroundImages?.map((record) => record != null && record.naturalWidth != null && record.naturalHeight != null ? { w: record.naturalWidth, h: record.naturalHeight } : null);\n      })(),\n      borderImageSource: cs.borderImageSource,\n      borderImageSlice: cs.borderImageSlice,\n      borderImageWidth: cs.borderImageWidth,\n      borderImageOutset: cs.borderImageOutset,\n      borderImageRepeat: cs.borderImageRepeat,\n      borderImageIntrinsicWidth: computeBorderImageIntrinsic(cs, \"naturalWidth\"),\n      borderImageIntrinsicHeight: computeBorderImageIntrinsic(cs, \"naturalHeight\"),\n      outlineStyle: cs.outlineStyle,\n      outlineWidth: physicalComputedPaintLength(cs.outlineWidth, effectiveZoom),\n      outlineColor: normColor(cs.outlineColor),\n      outlineOffset: physicalComputedPaintLength(cs.outlineOffset, effectiveZoom),\n      boxShadow: cs.boxShadow,\n      // box-decoration-break: 'slice' (default) vs 'clone'. Drives per-fragment\n      // paint of wrapped inline elements; see CapturedElement.inlineFragments.\n      boxDecorationBreak: cs.boxDecorationBreak || cs.webkitBoxDecorationBreak || \"slice\"\n    };\n  };\n  return { captureBordersBackgrounds, isTableCellHiddenByEmptyCells };\n};\n\n// src/capture/script/walker/background-attachment.ts\nvar TRANSFORM_WILL_CHANGE = /* @__PURE__ */ new Set([\n  \"transform\",\n  \"transform-style\",\n  \"perspective\",\n  \"translate\",\n  \"rotate\",\n  \"scale\",\n  \"offset-path\",\n  \"offset-position\"\n]);\nvar splitLayers = (value) => {\n  const out = [];\n  let depth = 0;\n  let quote = \"\";\n  let escaped = false;\n  let start = 0;\n  for (let i = 0; i < value.length; i++) {\n    const ch = value[i];\n    if (escaped) {\n      escaped = false;\n      continue;\n    }\n    if (ch === \"\\\\\") {\n      escaped = true;\n      continue;\n    }\n    if (quote !== \"\") {\n      if (ch === quote) quote = \"\";\n      continue;\n    }\n    if (ch === '\"' || ch === \"'\") {\n      quote = ch;\n      continue;\n    }\n    if (ch === \"(\") depth++;\n    else if (ch === \")\") depth = Math.max(0, depth - 1);\n    else if (ch === \",\" && depth === 0) {\n      out.push(value.slice(start, i).trim());\n      start = i + 1;\n    }\n  }\n  out.push(value.slice(start).trim());\n  return out;\n};\nvar hasAnyTransformWillChange = (style) => {\n  if (style.willChange == null || style.willChange === \"\" || style.willChange === \"auto\") return false;\n  return style.willChange.split(/[\\s,]+/).some((token) => TRANSFORM_WILL_CHANGE.has(token.toLowerCase()));\n};\nvar hasPaintLayerTransform = (style) => {\n  if (style.transform != null && style.transform !== \"\" && style.transform !== \"none\" || style.translate != null && style.translate !== \"\" && style.translate !== \"none\" || style.rotate != null && style.rotate !== \"\" && style.rotate !== \"none\" || style.scale != null && style.scale !== \"\" && style.scale !== \"none\") return true;\n  return style.offsetPath != null && style.offsetPath !== \"\" && style.offsetPath !== \"none\";\n};\nvar isVisibleCanvasBackground = (style) => {\n  const image = style.backgroundImage;\n  const color = style.backgroundColor;\n  return image != null && image !== \"\" && image !== \"none\" || color != null && color !== \"\" && color !== \"transparent\" && color !== \"rgba(0, 0, 0, 0)\" && color !== \"rgba(0,0,0,0)\";\n};\nvar createBackgroundAttachmentHandler = ({ vp, transformRelatedBoxFor, effectiveZoomFor, scrollbarPropertyKey }) => {\n  const fixedToViewport = (el) => {\n    const doc = el.ownerDocument;\n    const root = doc.documentElement;\n    if (el === root) return true;\n    for (let current = el; current != null && current !== root; current = current.parentElement) {\n      const style = (current.ownerDocument.defaultView || window).getComputedStyle(current);\n      if (transformRelatedBoxFor(current) === false) continue;\n      if (hasPaintLayerTransform(style) || hasAnyTransformWillChange(style)) return false;\n    }\n    return true;\n  };\n  const canvasOwner = (doc) => {\n    const root = doc.documentElement;\n    const body = doc.body;\n    if (root != null && isVisibleCanvasBackground((doc.defaultView || window).getComputedStyle(root))) return root;\n    return body;\n  };\n  const overflowClip = (el, rect, border, scaleX, scaleY) => {\n    let x = rect.left - vp.x + border.left;\n    let y = rect.top - vp.y + border.top;\n    let width = Math.max(0, rect.width - border.left - border.right);\n    let height = Math.max(0, rect.height - border.top - border.bottom);\n    const scrollbarSet = typeof scrollbarPropertyKey === \"string\" && scrollbarPropertyKey !== \"\" ? el[scrollbarPropertyKey] : void 0;\n    if (scrollbarSet != null && scrollbarSet.overlay === false) {\n      const vertical = scrollbarSet.vertical && scrollbarSet.vertical.frameRect;\n      if (vertical != null) {\n        if (scrollbarSet.vertical.logicalSide === \"left\") {\n          const edge = vertical.x + vertical.width;\n          const shrink = Math.max(0, edge - x);\n          x += shrink;\n          width = Math.max(0, width - shrink);\n        } else {\n          width = Math.max(0, Math.min(width, vertical.x - x));\n        }\n      }\n      const horizontal = scrollbarSet.horizontal && scrollbarSet.horizontal.frameRect;\n      if (horizontal != null) height = Math.max(0, Math.min(height, horizontal.y - y));\n    } else if (scrollbarSet == null) {\n      const clientWidth = Number(el.clientWidth) * scaleX;\n      const clientHeight = Number(el.clientHeight) * scaleY;\n      if (clientWidth > 0 && width - clientWidth > 0.5) width = clientWidth;\n      if (clientHeight > 0 && height - clientHeight > 0.5) height = clientHeight;\n    }\n    return { x, y, width, height };\n  };\n  const captureBackgroundAttachment = (el, style, rect, scaleX = 1, scaleY = 1) => {\n    const attachments = splitLayers(style.backgroundAttachment || \"scroll\");\n    const needsFixed = attachments.includes(\"fixed\");\n    const needsLocal = attachments.includes(\"local\");\n    const doc = el.ownerDocument;\n    const root = doc.documentElement;\n    const ownsCanvas = el === canvasOwner(doc) && isVisibleCanvasBackground(style);\n    if (!needsFixed && !needsLocal && !ownsCanvas) return void 0;\n    const zoom = effectiveZoomFor(el);\n    const physicalX = Number.isFinite(scaleX) && scaleX > 0 ? scaleX : zoom;\n    const physicalY = Number.isFinite(scaleY) && scaleY > 0 ? scaleY : zoom;\n    const border = {\n      top: (parseFloat(style.borderTopWidth) || 0) * physicalY,\n      right: (parseFloat(style.borderRightWidth) || 0) * physicalX,\n      bottom: (parseFloat(style.borderBottomWidth) || 0) * physicalY,\n      left: (parseFloat(style.borderLeftWidth) || 0) * physicalX\n    };\n    const rootRect = root.getBoundingClientRect();\n    const rootZoom = effectiveZoomFor(root);\n    const localScrollContainer = [\"auto\", \"hidden\", \"overlay\", \"scroll\"].includes(style.overflowX) || [\"auto\", \"hidden\", \"overlay\", \"scroll\"].includes(style.overflowY);\n    return {\n      source: \"blink-box-background-paint-context-v1\",\n      fixedToViewport: needsFixed ? fixedToViewport(el) : false,\n      layoutViewport: {\n        x: -vp.x,\n        y: -vp.y,\n        // Root clientHeight may expose the stitched document height when the\n        // root box itself is unconstrained. The layout viewport never exceeds\n        // innerWidth/innerHeight; client* is only the scrollbar-excluding cap.\n        width: Math.min((doc.defaultView || window).innerWidth, doc.documentElement.clientWidth),\n        height: Math.min((doc.defaultView || window).innerHeight, doc.documentElement.clientHeight)\n      },\n      local: needsLocal ? {\n        active: localScrollContainer,\n        // ScrollOffsetInt is the physical, pixel-snapped offset. CSSOM scroll\n        // positions are zoom-adjusted, so cross that boundary before snapping.\n        scrollOffsetX: Math.round(Number(el.scrollLeft || 0) * zoom) * (physicalX / zoom),\n        scrollOffsetY: Math.round(Number(el.scrollTop || 0) * zoom) * (physicalY / zoom),\n        borderPaintWidth: Number(el.scrollWidth || 0) * physicalX + border.left + border.right,\n        borderPaintHeight: Number(el.scrollHeight || 0) * physicalY + border.top + border.bottom,\n        overflowClip: overflowClip(el, rect, border, physicalX, physicalY)\n      } : void 0,\n      canvas: ownsCanvas ? {\n        owner: el === root ? \"root\" : \"body-propagated\",\n        positioningRect: {\n          x: rootRect.left - vp.x,\n          y: rootRect.top - vp.y,\n          width: Math.max(rootRect.width, Number(root.scrollWidth || 0) * rootZoom),\n          height: Math.max(rootRect.height, Number(root.scrollHeight || 0) * rootZoom)\n        }\n      } : void 0\n    };\n  };\n  return { captureBackgroundAttachment };\n};\n\n// src/capture/script/walker/pseudo-content.ts\nvar pseudoCanvasFont = (pcs) => (pcs.fontStyle || \"normal\") + \" \" + (pcs.fontWeight || \"normal\") + \" \" + (pcs.fontSize || \"16px\") + \" \" + (pcs.fontFamily || \"sans-serif\");\nvar buildPseudoContentHandler = ({\n  vp,\n  normColor,\n  measureFontMetrics,\n  textNeedsRaster,\n  resolveCounterValue,\n  isCustomCounterStyle,\n  composeEffectiveTransform: composeEffectiveTransform2,\n  effectiveZoomFor = () => 1,\n  physicalComputedCssPixelTerms = (value) => value\n}) => {\n  const physicalFilter = (el, value) => value && value !== \"none\" ? physicalComputedCssPixelTerms(value, effectiveZoomFor(el)) : void 0;\n  const physicalNumber = (el, value) => {\n    const number = parseFloat(value);\n    return Number.isFinite(number) ? number * effectiveZoomFor(el) : 0;\n  };\n  const physicalTransform = (el, value) => {\n    const zoom = effectiveZoomFor(el);\n    if (!value || value === \"none\" || zoom === 1) return value;\n    const m2 = /^matrix\\(([^)]+)\\)$/.exec(value);\n    if (m2 != null) {\n      const parts = m2[1].split(\",\").map((part) => parseFloat(part));\n      if (parts.length === 6 && parts.every(Number.isFinite)) {\n        parts[4] *= zoom;\n        parts[5] *= zoom;\n        return `matrix(${parts.join(\", \")})`;\n      }\n    }\n    const m3 = /^matrix3d\\(([^)]+)\\)$/.exec(value);\n    if (m3 != null) {\n      const parts = m3[1].split(\",\").map((part) => parseFloat(part));\n      if (parts.length === 16 && parts.every(Number.isFinite)) {\n        parts[12] *= zoom;\n        parts[13] *= zoom;\n        parts[14] *= zoom;\n        return `matrix3d(${parts.join(\", \")})`;\n      }\n    }\n    return value;\n  };\n  let _emojiAdvCv = null;\n  let _emojiAdvCtx = null;\n  const measureGlyphAdvance = (s, pcs) => {\n    if (_emojiAdvCtx == null) {\n      _emojiAdvCv = document.createElement(\"canvas\");\n      _emojiAdvCtx = _emojiAdvCv.getContext(\"2d\");\n    }\n    _emojiAdvCtx.font = pseudoCanvasFont(pcs);\n    return _emojiAdvCtx.measureText(s).width;\n  };\n  const probeGeneratedPseudoLayout = (el, pseudo, text, pcs) => {\n    const span = document.createElement(\"span\");\n    for (let i = 0; i < pcs.length; i++) {\n      const name = pcs.item(i);\n      span.style.setProperty(name, pcs.getPropertyValue(name));\n    }\n    span.style.setProperty(\"content\", \"normal\");\n    span.style.setProperty(\"visibility\", \"hidden\");\n    span.style.setProperty(\"pointer-events\", \"none\");\n    span.style.setProperty(\"transform\", \"none\");\n    span.style.setProperty(\"translate\", \"none\");\n    span.style.setProperty(\"rotate\", \"none\");\n    span.style.setProperty(\"scale\", \"none\");\n    span.textContent = text;\n    if (pseudo === \"::before\") el.insertBefore(span, el.firstChild);\n    else el.appendChild(span);\n    const borderRect = span.getBoundingClientRect();\n    const range = document.createRange();\n    range.selectNodeContents(span);\n    const textRect = range.getBoundingClientRect();\n    const result = {\n      borderRect: { left: borderRect.left, top: borderRect.top, width: borderRect.width, height: borderRect.height },\n      textRect: { left: textRect.left, top: textRect.top, width: textRect.width, height: textRect.height }\n    };\n    span.remove();\n    return result;\n  };\n  const probePseudoStaticBoxRect = (el, pseudo, pcs) => {\n    const probe = document.createElement(\"span\");\n    probe.style.cssText = \"pointer-events:none;visibility:hidden;box-sizing:content-box\";\n    probe.style.display = pcs.display;\n    probe.style.width = pcs.width;\n    probe.style.height = pcs.height;\n    probe.style.paddingTop = pcs.paddingTop;\n    probe.style.paddingRight = pcs.paddingRight;\n    probe.style.paddingBottom = pcs.paddingBottom;\n    probe.style.paddingLeft = pcs.paddingLeft;\n    probe.style.borderTopWidth = pcs.borderTopWidth;\n    probe.style.borderRightWidth = pcs.borderRightWidth;\n    probe.style.borderBottomWidth = pcs.borderBottomWidth;\n    probe.style.borderLeftWidth = pcs.borderLeftWidth;\n    probe.style.borderStyle = \"solid\";\n    probe.style.borderColor = \"transparent\";\n    probe.style.marginTop = pcs.marginTop;\n    probe.style.marginRight = pcs.marginRight;\n    probe.style.marginBottom = pcs.marginBottom;\n    probe.style.marginLeft = pcs.marginLeft;\n    probe.style.verticalAlign = pcs.verticalAlign;\n    probe.style.font = \"\";\n    if (pseudo === \"::before\") el.insertBefore(probe, el.firstChild);\n    else el.appendChild(probe);\n    const r = probe.getBoundingClientRect();\n    probe.remove();\n    return r;\n  };\n  const probePseudoAbsoluteBoxRect = (el, pseudo, pcs) => {\n    const probe = document.createElement(\"div\");\n    probe.style.cssText = \"pointer-events:none;visibility:hidden;box-sizing:content-box;margin:0\";\n    probe.style.position = pcs.position;\n    probe.style.top = pcs.top;\n    probe.style.right = pcs.right;\n    probe.style.bottom = pcs.bottom;\n    probe.style.left = pcs.left;\n    probe.style.width = pcs.width;\n    probe.style.height = pcs.height;\n    probe.style.paddingTop = pcs.paddingTop;\n    probe.style.paddingRight = pcs.paddingRight;\n    probe.style.paddingBottom = pcs.paddingBottom;\n    probe.style.paddingLeft = pcs.paddingLeft;\n    probe.style.borderTopWidth = pcs.borderTopWidth;\n    probe.style.borderRightWidth = pcs.borderRightWidth;\n    probe.style.borderBottomWidth = pcs.borderBottomWidth;\n    probe.style.borderLeftWidth = pcs.borderLeftWidth;\n    probe.style.borderStyle = \"solid\";\n    probe.style.borderColor = \"transparent\";\n    probe.style.marginTop = pcs.marginTop;\n    probe.style.marginRight = pcs.marginRight;\n    probe.style.marginBottom = pcs.marginBottom;\n    probe.style.marginLeft = pcs.marginLeft;\n    probe.style.transform = \"\";\n    probe.style.transformOrigin = \"\";\n    if (pseudo === \"::before\") el.insertBefore(probe, el.firstChild);\n    else el.appendChild(probe);\n    const r = probe.getBoundingClientRect();\n    probe.remove();\n    return r;\n  };\n  const pickQuoteChar = (forEl, isOpen) => {\n    let depth = 0;\n    let p = forEl.parentElement;\n    while (p != null) {\n      if (p.tagName === \"Q\") depth++;\n      p = p.parentElement;\n    }\n    const cs = window.getComputedStyle(forEl).quotes;\n    if (cs == null || cs === \"\" || cs === \"none\" || cs === \"auto\") {\n      const pairs = [[\"\\u201C\", \"\\u201D\"], [\"\\u2018\", \"\\u2019\"]];\n      const pair = pairs[Math.min(depth, pairs.length - 1)];\n      return isOpen ? pair[0] : pair[1];\n    }\n    const tokens = [];\n    let i = 0;\n    while (i < cs.length) {\n      if (cs[i] === '\"') {\n        let j = i + 1;\n        let s = \"\";\n        while (j < cs.length && cs[j] !== '\"') {\n          if (cs[j] === \"\\\\\") {\n            s += cs[j + 1];\n            j += 2;\n          } else {\n            s += cs[j];\n            j++;\n          }\n        }\n        tokens.push(s);\n        i = j + 1;\n      } else {\n        i++;\n      }\n    }\n    if (tokens.length < 2) {\n      const pair = [\"\\u201C\", \"\\u201D\"];\n      return isOpen ? pair[0] : pair[1];\n    }\n    const pairIdx = Math.min(depth, Math.floor((tokens.length - 1) / 2));\n    return isOpen ? tokens[pairIdx * 2] : tokens[pairIdx * 2 + 1];\n  };\n  const parsePseudoContent = (content, el, counterSnapshot, pseudo) => {\n    let text = \"\";\n    let imageUrl = \"\";\n    let i = 0;\n    while (i < content.length) {\n      const c = content[i];\n      if (c === '\"' || c === \"'\") {\n        const end = content.indexOf(c, i + 1);\n        if (end < 0) break;\n        text += content.slice(i + 1, end);\n        i = end + 1;\n      } else if (content.startsWith(\"attr(\", i)) {\n        const end = content.indexOf(\")\", i);\n        if (end < 0) break;\n        const attrName = content.slice(i + 5, end).trim();\n        text += el.getAttribute(attrName) || \"\";\n        i = end + 1;\n      } else if (content.startsWith(\"url(\", i)) {\n        const end = content.indexOf(\")\", i);\n        if (end < 0) break;\n        let url = content.slice(i + 4, end).trim();\n        if (url.startsWith('\"') && url.endsWith('\"') || url.startsWith(\"'\") && url.endsWith(\"'\")) {\n          url = url.slice(1, -1);\n        }\n        imageUrl = url;\n        i = end + 1;\n      } else if (content.startsWith(\"counter(\", i) || content.startsWith(\"counters(\", i)) {\n        const isCounters = content.startsWith(\"counters(\", i);\n        const openIdx = i + (isCounters ? \"counters(\".length : \"counter(\".length);\n        const closeIdx = content.indexOf(\")\", openIdx);\n        if (closeIdx < 0) {\n          i++;\n          continue;\n        }\n        const args = content.slice(openIdx, closeIdx).split(\",\").map((s) => {\n          const t = s.trim();\n          if (t.startsWith('\"') && t.endsWith('\"') || t.startsWith(\"'\") && t.endsWith(\"'\")) {\n            return t.slice(1, -1);\n          }\n          return t;\n        });\n        const cname = args[0];\n        const sep = isCounters ? args[1] ?? \"\" : \"\";\n        const styleArg = isCounters ? args[2] : args[1];\n        const useStyle = styleArg != null && styleArg !== \"\" && resolveCounterValue != null;\n        const format = (v) => {\n          if (!useStyle) return String(v);\n          const out = resolveCounterValue(styleArg, v);\n          return out != null ? out : String(v);\n        };\n        const captured = counterSnapshot.get(el);\n        const snapshot = captured?.[pseudo] ?? captured?.element ?? captured ?? [];\n        const matches = snapshot.filter((s) => s.name === cname).map((s) => format(s.value));\n        if (isCounters) {\n          text += matches.length > 0 ? matches.join(sep) : format(0);\n        } else {\n          text += matches.length > 0 ? matches[matches.length - 1] : format(0);\n        }\n        i = closeIdx + 1;\n      } else if (content.startsWith(\"open-quote\", i)) {\n        text += pickQuoteChar(el, true);\n        i += \"open-quote\".length;\n      } else if (content.startsWith(\"close-quote\", i)) {\n        text += pickQuoteChar(el, false);\n        i += \"close-quote\".length;\n      } else if (content.startsWith(\"no-open-quote\", i)) {\n        i += \"no-open-quote\".length;\n      } else if (content.startsWith(\"no-close-quote\", i)) {\n        i += \"no-close-quote\".length;\n      } else {\n        i++;\n      }\n    }\n    return { text, imageUrl };\n  };\n  const captureEmptyContentBox = (el, cs, pseudo, pcs, rect) => {\n    const bgRaw = pcs.backgroundColor;\n    const hasBg = bgRaw && bgRaw !== \"\" && bgRaw !== \"rgba(0, 0, 0, 0)\" && bgRaw !== \"transparent\";\n    const bgImgRaw = pcs.backgroundImage;\n    const hasBgImg = hasCssValue(bgImgRaw);\n    const rawBorderWidths = sideWidths(pcs, \"border\", \"Width\");\n    const bwT = rawBorderWidths.top * effectiveZoomFor(el);\n    const bwR = rawBorderWidths.right * effectiveZoomFor(el);\n    const bwB = rawBorderWidths.bottom * effectiveZoomFor(el);\n    const bwL = rawBorderWidths.left * effectiveZoomFor(el);\n    const hasBorder = bwT > 0 || bwR > 0 || bwB > 0 || bwL > 0;\n    const isBlockLike = pcs.display === \"block\" || pcs.display === \"inline-block\" || pcs.display === \"flex\";\n    if (isBlockLike && (hasBg || hasBgImg || hasBorder)) {\n      const zoom = effectiveZoomFor(el);\n      const hostPadL = physicalNumber(el, cs.paddingLeft);\n      const hostPadT = physicalNumber(el, cs.paddingTop);\n      const hostBorL = physicalNumber(el, cs.borderLeftWidth);\n      const hostBorT = physicalNumber(el, cs.borderTopWidth);\n      const hostBorR = physicalNumber(el, cs.borderRightWidth);\n      const pMarL = physicalNumber(el, pcs.marginLeft);\n      const rawPadding = sideWidths(pcs, \"padding\", \"\");\n      const pPadL = rawPadding.left * zoom;\n      const pPadR = rawPadding.right * zoom;\n      const pPadT = rawPadding.top * zoom;\n      const pPadB = rawPadding.bottom * zoom;\n      const hostContentW = rect.width - hostBorL - hostBorR - hostPadL - physicalNumber(el, cs.paddingRight);\n      const pcsW = parseFloat(pcs.width);\n      const pcsH = parseFloat(pcs.height);\n      const contentW = !isNaN(pcsW) ? pcsW * zoom : hostContentW - pMarL - physicalNumber(el, pcs.marginRight);\n      const contentH = !isNaN(pcsH) ? pcsH * zoom : 0;\n      const borderBoxW = contentW + pPadL + pPadR + bwL + bwR;\n      const borderBoxH = contentH + pPadT + pPadB + bwT + bwB;\n      let borderBoxX;\n      let borderBoxY;\n      if (pcs.position === \"absolute\" || pcs.position === \"fixed\") {\n        const pr = probePseudoAbsoluteBoxRect(el, pseudo, pcs);\n        borderBoxX = pr.left - vp.x;\n        borderBoxY = pr.top - vp.y;\n      } else {\n        const pMarT = physicalNumber(el, pcs.marginTop);\n        borderBoxX = rect.left - vp.x + hostBorL + hostPadL + pMarL;\n        borderBoxY = rect.top - vp.y + hostBorT + hostPadT + pMarT;\n        const hostFlex = cs.display === \"flex\" || cs.display === \"inline-flex\";\n        const justify = cs.justifyContent || \"\";\n        const pushesEnd = justify.indexOf(\"space-between\") >= 0 || justify.indexOf(\"flex-end\") >= 0 || justify === \"end\" || justify === \"right\";\n        if (pseudo === \"::after\" && hostFlex && pushesEnd) {\n          const hostPadR = physicalNumber(el, cs.paddingRight);\n          const pMarR = physicalNumber(el, pcs.marginRight);\n          borderBoxX = rect.right - vp.x - hostBorR - hostPadR - pMarR - borderBoxW;\n          if (cs.alignItems === \"center\") {\n            const hostBorB = physicalNumber(el, cs.borderBottomWidth);\n            const hostPadB = physicalNumber(el, cs.paddingBottom);\n            const contentH2 = rect.height - hostBorT - hostBorB - hostPadT - hostPadB;\n            borderBoxY = rect.top - vp.y + hostBorT + hostPadT + (contentH2 - borderBoxH) / 2 + pMarT;\n          }\n        }\n        const dispIsInline = pcs.display === \"inline-block\" || pcs.display === \"inline-flex\" || pcs.display === \"inline-grid\" || pcs.display === \"inline-table\";\n        if (dispIsInline) {\n          const pr = probePseudoStaticBoxRect(el, pseudo, pcs);\n          borderBoxY = pr.top - vp.y;\n          if (pseudo === \"::after\") {\n            borderBoxX = pr.left - vp.x;\n          } else {\n            const pMarR = physicalNumber(el, pcs.marginRight);\n            borderBoxX = pr.left - vp.x - pMarR - borderBoxW - pMarL;\n          }\n        }\n      }\n      let degenerateHostTransform = false;\n      if (cs.transform && cs.transform !== \"none\") {\n        const m2 = /^matrix\\(\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)/.exec(cs.transform);\n        if (m2) {\n          const a = parseFloat(m2[1]);\n          const b = parseFloat(m2[2]);\n          const c = parseFloat(m2[3]);\n          const d = parseFloat(m2[4]);\n          if (Math.abs(a * d - b * c) < 1e-9) degenerateHostTransform = true;\n        }\n      }\n      if (borderBoxW > 0 && borderBoxH > 0 && !degenerateHostTransform) {\n        const pcsComposedRaw = composeEffectiveTransform2 != null ? composeEffectiveTransform2(pcs) : pcs.transform || \"none\";\n        const pcsComposed = physicalTransform(el, pcsComposedRaw);\n        const pcsTransform = pcsComposed && pcsComposed !== \"none\" ? pcsComposed : void 0;\n        const pcsTransformOrigin = pcsTransform != null ? physicalComputedCssPixelTerms(pcs.transformOrigin || \"\", zoom) || void 0 : void 0;\n        const pcsZ = parseInt(pcs.zIndex, 10);\n        const pcsZIndex = Number.isFinite(pcsZ) ? pcsZ : void 0;\n        const pcsFilter = physicalFilter(el, pcs.filter);\n        return {\n          // DM-1001: track which pseudo emitted this box so the renderer\n          // can paint ::after pseudo-elements AFTER the host's text (the\n          // CSS render order). The earlier \"emit all pseudoBoxes ahead of\n          // text\" gate (line 2370) is right for ::before but wrong for\n          // ::after — NYT's right-edge fade-out overlays the headline\n          // text via `::after { background: linear-gradient(transparent,\n          // white) }`, so painting it under the text leaves the headline\n          // sharp instead of fading.\n          pseudo,\n          x: borderBoxX,\n          y: borderBoxY,\n          width: borderBoxW,\n          height: borderBoxH,\n          backgroundColor: hasBg ? normColor(bgRaw) : void 0,\n          backgroundImage: hasBgImg ? bgImgRaw : void 0,\n          // DM-1121: a gradient pseudo's background-position / -size and its\n          // own opacity steer where the gradient core lands and how strong it\n          // paints (Stripe's keynote glow is an off-center, 45%-opacity pink\n          // radial). Capture position/size only alongside a background-image,\n          // and opacity only when it actually dims the box (< 1).\n          backgroundPosition: hasBgImg ? physicalComputedCssPixelTerms(pcs.backgroundPosition, zoom) : void 0,\n          backgroundSize: hasBgImg ? physicalComputedCssPixelTerms(pcs.backgroundSize, zoom) : void 0,\n          opacity: (function() {\n            var o = parseFloat(pcs.opacity);\n            return isFinite(o) && o < 1 ? o : void 0;\n          })(),\n          borderTopWidth: bwT,\n          borderTopColor: bwT > 0 ? normColor(pcs.borderTopColor) : void 0,\n          borderTopStyle: pcs.borderTopStyle,\n          borderRightWidth: bwR,\n          borderRightColor: bwR > 0 ? normColor(pcs.borderRightColor) : void 0,\n          borderRightStyle: pcs.borderRightStyle,\n          borderBottomWidth: bwB,\n          borderBottomColor: bwB > 0 ? normColor(pcs.borderBottomColor) : void 0,\n          borderBottomStyle: pcs.borderBottomStyle,\n          borderLeftWidth: bwL,\n          borderLeftColor: bwL > 0 ? normColor(pcs.borderLeftColor) : void 0,\n          borderLeftStyle: pcs.borderLeftStyle,\n          borderRadius: physicalNumber(el, pcs.borderRadius),\n          transform: pcsTransform,\n          transformOrigin: pcsTransformOrigin,\n          zIndex: pcsZIndex,\n          filter: pcsFilter\n        };\n      }\n    }\n    return null;\n  };\n  const capturePseudoContent = (el, cs, rect, counterSnapshot) => {\n    const pseudoSegments = [];\n    const pseudoBoxes = [];\n    for (const pseudo of [\"::before\", \"::after\"]) {\n      const pcs = window.getComputedStyle(el, pseudo);\n      const content = pcs.content;\n      if (content == null || content === \"none\" || content === \"normal\" || content === \"\") continue;\n      const opacityNum = parseFloat(pcs.opacity);\n      if (Number.isFinite(opacityNum) && opacityNum === 0) continue;\n      const { text, imageUrl } = parsePseudoContent(content, el, counterSnapshot, pseudo);\n      if (text === \"\" && imageUrl === \"\") {\n        const box = captureEmptyContentBox(el, cs, pseudo, pcs, rect);\n        if (box != null) pseudoBoxes.push(box);\n        continue;\n      }\n      if (imageUrl !== \"\" && text === \"\") {\n        const probeImg = new Image();\n        probeImg.src = imageUrl;\n        const imageZoom = effectiveZoomFor(el);\n        const intrinsicW = (probeImg.naturalWidth || 0) * imageZoom;\n        const intrinsicH = (probeImg.naturalHeight || 0) * imageZoom;\n        let layoutW = (parseFloat(pcs.width) || 0) * imageZoom;\n        let layoutH = (parseFloat(pcs.height) || 0) * imageZoom;\n        if (layoutW <= 0) layoutW = intrinsicW || 24;\n        if (layoutH <= 0) layoutH = intrinsicH || 24;\n        const renderW = intrinsicW > 0 ? intrinsicW : layoutW;\n        const renderH = intrinsicH > 0 ? intrinsicH : layoutH;\n        const elTop2 = rect.top - vp.y + physicalNumber(el, cs.paddingTop) + physicalNumber(el, cs.borderTopWidth);\n        const elLeft2 = rect.left - vp.x + physicalNumber(el, cs.paddingLeft) + physicalNumber(el, cs.borderLeftWidth);\n        const elFontSizeForImg = (parseFloat(pcs.fontSize) || 14) * imageZoom;\n        const lineHImg = (parseFloat(pcs.lineHeight) || (parseFloat(pcs.fontSize) || 14) * 1.2) * imageZoom;\n        const yPosImg = elTop2 + (lineHImg - layoutH) / 2;\n        const imageComposedRaw = composeEffectiveTransform2 != null ? composeEffectiveTransform2(pcs) : pcs.transform || \"none\";\n        const imageComposed = physicalTransform(el, imageComposedRaw);\n        const imageTransform = imageComposed && imageComposed !== \"none\" ? imageComposed : void 0;\n        const imageOpacity = parseFloat(pcs.opacity);\n        pseudoSegments.push({\n          isBefore: pseudo === \"::before\",\n          imageUrl,\n          seg: { text: \"\", x: elLeft2, y: yPosImg, width: layoutW, height: layoutH },\n          renderWidth: renderW,\n          renderHeight: renderH,\n          color: pcs.color,\n          boxMarginLeft: physicalNumber(el, pcs.marginLeft),\n          boxMarginRight: physicalNumber(el, pcs.marginRight),\n          boxBorderLeft: physicalNumber(el, pcs.borderLeftWidth),\n          boxBorderRight: physicalNumber(el, pcs.borderRightWidth),\n          boxPaddingLeft: physicalNumber(el, pcs.paddingLeft),\n          boxPaddingRight: physicalNumber(el, pcs.paddingRight),\n          filter: physicalFilter(el, pcs.filter),\n          opacity: Number.isFinite(imageOpacity) && imageOpacity < 1 ? imageOpacity : void 0,\n          transform: imageTransform,\n          transformOrigin: imageTransform != null ? physicalComputedCssPixelTerms(pcs.transformOrigin || \"\", imageZoom) || void 0 : void 0\n        });\n        continue;\n      }\n      if (text === \"\") continue;\n      const pseudoLayout = probeGeneratedPseudoLayout(el, pseudo, text, pcs);\n      const pPadLMeasured = parseFloat(pcs.paddingLeft) || 0;\n      const pPadRMeasured = parseFloat(pcs.paddingRight) || 0;\n      const pBorLMeasured = parseFloat(pcs.borderLeftWidth) || 0;\n      const pBorRMeasured = parseFloat(pcs.borderRightWidth) || 0;\n      const measuredContentWidth = Math.max(0, pseudoLayout.borderRect.width - pPadLMeasured - pPadRMeasured - pBorLMeasured - pBorRMeasured);\n      const hasUsedBoxWidth = pcs.width !== \"\" && pcs.width !== \"auto\" && (pcs.position === \"absolute\" || pcs.position === \"fixed\");\n      const pseudoWidth = hasUsedBoxWidth ? measuredContentWidth : pseudoLayout.textRect.width > 0 ? pseudoLayout.textRect.width : measuredContentWidth;\n      const elTop = rect.top - vp.y + (parseFloat(cs.paddingTop) || 0) + (parseFloat(cs.borderTopWidth) || 0);\n      const elLeft = rect.left - vp.x + (parseFloat(cs.paddingLeft) || 0) + (parseFloat(cs.borderLeftWidth) || 0);\n      const elFontSize = parseFloat(pcs.fontSize) || 14;\n      const lineH = parseFloat(pcs.lineHeight) || elFontSize * 1.2;\n      const pseudoMetrics = measureFontMetrics(pcs);\n      let xPos;\n      let yPos;\n      let pseudoIsPositioned = false;\n      if (pcs.position === \"absolute\" || pcs.position === \"fixed\") {\n        const pcsLeft = parseFloat(pcs.left);\n        const pcsTop = parseFloat(pcs.top);\n        const pcsRight = parseFloat(pcs.right);\n        const pcsBottom = parseFloat(pcs.bottom);\n        const paddingBoxLeft = rect.left - vp.x + (parseFloat(cs.borderLeftWidth) || 0);\n        const paddingBoxTop = rect.top - vp.y + (parseFloat(cs.borderTopWidth) || 0);\n        const paddingBoxRight = rect.right - vp.x - (parseFloat(cs.borderRightWidth) || 0);\n        const paddingBoxBottom = rect.bottom - vp.y - (parseFloat(cs.borderBottomWidth) || 0);\n        const pPadL = parseFloat(pcs.paddingLeft) || 0;\n        const pPadR = parseFloat(pcs.paddingRight) || 0;\n        const pPadT = parseFloat(pcs.paddingTop) || 0;\n        const pPadB = parseFloat(pcs.paddingBottom) || 0;\n        const pBorL = parseFloat(pcs.borderLeftWidth) || 0;\n        const pBorR = parseFloat(pcs.borderRightWidth) || 0;\n        const pBorT = parseFloat(pcs.borderTopWidth) || 0;\n        const pBorB = parseFloat(pcs.borderBottomWidth) || 0;\n        if (!isNaN(pcsLeft)) xPos = paddingBoxLeft + pcsLeft;\n        else if (!isNaN(pcsRight)) xPos = paddingBoxRight - pcsRight - pseudoWidth - pPadL - pPadR - pBorL - pBorR;\n        else xPos = paddingBoxLeft;\n        if (!isNaN(pcsTop)) yPos = paddingBoxTop + pcsTop;\n        else if (!isNaN(pcsBottom)) yPos = paddingBoxBottom - pcsBottom - lineH - pPadT - pPadB - pBorT - pBorB;\n        else yPos = paddingBoxTop;\n        xPos += pPadL + pBorL;\n        yPos += pPadT + pBorT;\n        yPos += (lineH - elFontSize) / 2;\n        pseudoIsPositioned = true;\n      } else {\n        yPos = elTop + (lineH - elFontSize) / 2;\n        const pcsMarginL = parseFloat(pcs.marginLeft) || 0;\n        const pcsBorderL = parseFloat(pcs.borderLeftWidth) || 0;\n        const pcsPaddingL = parseFloat(pcs.paddingLeft) || 0;\n        const justify = cs.justifyContent || \"\";\n        const hostFlex = cs.display === \"flex\" || cs.display === \"inline-flex\";\n        const pushesEnd = justify.indexOf(\"space-between\") >= 0 || justify.indexOf(\"flex-end\") >= 0 || justify === \"end\" || justify === \"right\";\n        if (pseudo === \"::before\") {\n          xPos = elLeft + pcsMarginL + pcsBorderL + pcsPaddingL;\n        } else if (hostFlex && pushesEnd) {\n          const contentRight = rect.right - vp.x - (parseFloat(cs.borderRightWidth) || 0) - (parseFloat(cs.paddingRight) || 0);\n          xPos = contentRight - pseudoWidth;\n        } else {\n          xPos = elLeft + rect.width - pseudoWidth - 2 * (parseFloat(cs.paddingRight) || 0);\n        }\n      }\n      const pseudoSeg = {\n        text,\n        x: xPos,\n        y: yPos,\n        width: pseudoWidth,\n        height: elFontSize,\n        // Carry pseudo-specific typography so the renderer can respect\n        // per-pseudo color, font-size, font-weight, font-family, font-style\n        // (CSS lets pseudos style independently of their parent — Slashdot's\n        // \"Most Discussed\" carousel heading is a ::after that's italic+bordered\n        // on a non-italic host div).\n        color: pcs.color,\n        fontSize: elFontSize,\n        fontWeight: pcs.fontWeight,\n        fontFamily: pcs.fontFamily,\n        fontStyle: pcs.fontStyle,\n        fontAscent: pseudoMetrics.ascent\n      };\n      const pseudoBgRaw = pcs.backgroundColor;\n      const pseudoBgColor = pseudoBgRaw && pseudoBgRaw !== \"\" && pseudoBgRaw !== \"rgba(0, 0, 0, 0)\" && pseudoBgRaw !== \"transparent\" ? normColor(pseudoBgRaw) : \"\";\n      const pseudoBR = parseFloat(pcs.borderRadius) || 0;\n      const bwTop = parseFloat(pcs.borderTopWidth) || 0;\n      const bwRight = parseFloat(pcs.borderRightWidth) || 0;\n      const bwBottom = parseFloat(pcs.borderBottomWidth) || 0;\n      const bwLeft = parseFloat(pcs.borderLeftWidth) || 0;\n      const bwUniform = bwTop > 0 && bwRight === bwTop && bwBottom === bwTop && bwLeft === bwTop;\n      const pseudoBC = bwUniform ? normColor(pcs.borderTopColor) : \"\";\n      const colorIsPaintable = (raw) => raw !== \"\" && raw !== \"rgba(0, 0, 0, 0)\" && raw !== \"transparent\";\n      const sideBorderTopColor = bwTop > 0 ? normColor(pcs.borderTopColor) : \"\";\n      const sideBorderRightColor = bwRight > 0 ? normColor(pcs.borderRightColor) : \"\";\n      const sideBorderBottomColor = bwBottom > 0 ? normColor(pcs.borderBottomColor) : \"\";\n      const sideBorderLeftColor = bwLeft > 0 ? normColor(pcs.borderLeftColor) : \"\";\n      const hasPerSideBorder = !bwUniform && (bwTop > 0 && colorIsPaintable(sideBorderTopColor) || bwRight > 0 && colorIsPaintable(sideBorderRightColor) || bwBottom > 0 && colorIsPaintable(sideBorderBottomColor) || bwLeft > 0 && colorIsPaintable(sideBorderLeftColor));\n      const pseudoBgImgRaw = pcs.backgroundImage;\n      const hasPseudoBgImg = hasCssValue(pseudoBgImgRaw);\n      const pseudoComposedRaw = composeEffectiveTransform2 != null ? composeEffectiveTransform2(pcs) : pcs.transform || \"none\";\n      const pseudoComposed = physicalTransform(el, pseudoComposedRaw);\n      const pseudoTransform = pseudoComposed && pseudoComposed !== \"none\" ? pseudoComposed : void 0;\n      const pseudoTransformOrigin = pseudoTransform != null ? physicalComputedCssPixelTerms(pcs.transformOrigin || \"\", effectiveZoomFor(el)) || void 0 : void 0;\n      const pseudoFilter = physicalFilter(el, pcs.filter);\n      const pseudoOpacityValue = parseFloat(pcs.opacity);\n      const pseudoOpacity = Number.isFinite(pseudoOpacityValue) && pseudoOpacityValue < 1 ? pseudoOpacityValue : void 0;\n      let pseudoBoxStyles = null;\n      if (pseudoBgColor !== \"\" || hasPseudoBgImg || pseudoBR > 0 || bwUniform && pseudoBC !== \"\" && pseudoBC !== \"rgba(0, 0, 0, 0)\" || hasPerSideBorder || pseudoTransform != null || pseudoFilter != null || pseudoOpacity != null) {\n        pseudoBoxStyles = {\n          padL: parseFloat(pcs.paddingLeft) || 0,\n          padR: parseFloat(pcs.paddingRight) || 0,\n          padT: parseFloat(pcs.paddingTop) || 0,\n          padB: parseFloat(pcs.paddingBottom) || 0,\n          borL: bwLeft,\n          borR: bwRight,\n          borT: bwTop,\n          borB: bwBottom,\n          // Inline-box bg paints at line-height, not at font-size — so\n          // the box's vertical extent is lineH + padding + border (not\n          // fontSize). Capture lineH alongside the metrics; the post-\n          // injection block uses it to compute boxH and boxY (centered\n          // on the line box).\n          lineH,\n          fontSize: elFontSize,\n          measuredWidth: pseudoLayout.borderRect.width,\n          measuredHeight: pseudoLayout.borderRect.height,\n          backgroundColor: pseudoBgColor !== \"\" ? pseudoBgColor : void 0,\n          backgroundImage: hasPseudoBgImg ? pseudoBgImgRaw : void 0,\n          borderRadius: pseudoBR > 0 ? pseudoBR : void 0,\n          borderWidth: bwUniform ? bwTop : void 0,\n          borderColor: bwUniform && pseudoBC !== \"\" && pseudoBC !== \"rgba(0, 0, 0, 0)\" ? pseudoBC : void 0,\n          transform: pseudoTransform,\n          transformOrigin: pseudoTransformOrigin,\n          filter: pseudoFilter,\n          opacity: pseudoOpacity,\n          // Per-side colors. Renderer reads these when no uniform border\n          // is set and emits a `<line>` for each side whose width > 0 and\n          // color is paintable. Undefined when the side has no visible\n          // border, keeping the captured tree compact in the common case.\n          borderTopColor: hasPerSideBorder && bwTop > 0 && colorIsPaintable(sideBorderTopColor) ? sideBorderTopColor : void 0,\n          borderRightColor: hasPerSideBorder && bwRight > 0 && colorIsPaintable(sideBorderRightColor) ? sideBorderRightColor : void 0,\n          borderBottomColor: hasPerSideBorder && bwBottom > 0 && colorIsPaintable(sideBorderBottomColor) ? sideBorderBottomColor : void 0,\n          borderLeftColor: hasPerSideBorder && bwLeft > 0 && colorIsPaintable(sideBorderLeftColor) ? sideBorderLeftColor : void 0\n        };\n      }\n      let allPua = text.length > 0;\n      for (let _ci = 0; _ci < text.length; ) {\n        const cp = text.codePointAt(_ci);\n        const inPua = cp >= 57344 && cp <= 63743 || cp >= 983040 && cp <= 1048573 || cp >= 1048576 && cp <= 1114109;\n        if (!inPua) {\n          allPua = false;\n          break;\n        }\n        _ci += cp > 65535 ? 2 : 1;\n      }\n      if (textNeedsRaster(text) || allPua) {\n        if (allPua && !textNeedsRaster(text)) {\n          pseudoSeg.rasterRect = {\n            x: rect.left - vp.x,\n            y: rect.top - vp.y,\n            width: rect.width,\n            height: rect.height\n          };\n        } else {\n          pseudoSeg.rasterRect = {\n            x: pseudoSeg.x,\n            y: elTop,\n            width: pseudoWidth,\n            height: lineH\n          };\n          const emojiInner = text.replace(/^[\"']|[\"']$/g, \"\").replace(/^\\s+|\\s+$/g, \"\");\n          if (emojiInner.length > 0) {\n            const emojiSide = Math.min(measureGlyphAdvance(emojiInner, pcs), elFontSize * 1.4);\n            if (emojiSide > lineH) pseudoSeg.rasterEmojiSide = emojiSide;\n          }\n        }\n      }\n      pseudoSegments.push({\n        isBefore: pseudo === \"::before\",\n        seg: pseudoSeg,\n        color: pcs.color,\n        isPositioned: pseudoIsPositioned,\n        boxStyles: pseudoBoxStyles\n      });\n    }\n    return { pseudoSegments, pseudoBoxes };\n  };\n  return { capturePseudoContent };\n};\nvar createPseudoContentHandler = (dependencies) => buildPseudoContentHandler(dependencies);\n\n// src/capture/script/walker/input-value.ts\nvar SKIP_VALUE_TYPES = /* @__PURE__ */ new Set([\n  \"range\",\n  \"color\",\n  \"checkbox\",\n  \"radio\",\n  \"file\",\n  \"image\",\n  \"hidden\",\n  \"date\",\n  \"time\",\n  \"datetime-local\",\n  \"month\",\n  \"week\"\n]);\nvar NOT_APPLIED = { applied: false };\nvar createInputValueHandler = ({ vp, normColor, measureFontMetrics }) => {\n  const captureInputValue = (el, cs, tag, rect) => {\n    if (tag !== \"input\" && tag !== \"textarea\") return NOT_APPLIED;\n    const inputType = tag === \"input\" ? el.type || \"text\" : \"\";\n    if (SKIP_VALUE_TYPES.has(inputType)) return NOT_APPLIED;\n    let isPlaceholderCapture = false;\n    let text = \"\";\n    if (!el.value) {\n      const placeholder = el.getAttribute && el.getAttribute(\"placeholder\");\n      if (placeholder != null && placeholder !== \"\") {\n        isPlaceholderCapture = true;\n        text = placeholder;\n      } else {\n        return NOT_APPLIED;\n      }\n    } else {\n      text = inputType === \"password\" ? \"\\u2022\".repeat(el.value.length) : el.value;\n    }\n    const pl = parseFloat(cs.paddingLeft) || 0;\n    const pt = parseFloat(cs.paddingTop) || 0;\n    const pr = parseFloat(cs.paddingRight) || 0;\n    const pb = parseFloat(cs.paddingBottom) || 0;\n    const { left: bl, top: bt, right: br, bottom: bb } = sideWidths(cs, \"border\", \"Width\");\n    let textLeft = rect.left - vp.x + bl + pl;\n    let textTop = rect.top - vp.y + bt + pt;\n    const textHeight = parseFloat(cs.lineHeight) || parseFloat(cs.fontSize) * 1.2;\n    const textWidth = rect.width - bl * 2 - pl * 2;\n    const display = cs.display;\n    const isFlexLike = display === \"flex\" || display === \"inline-flex\" || display === \"grid\" || display === \"inline-grid\";\n    const isSingleLineInput = tag === \"input\";\n    if (isSingleLineInput || isFlexLike && cs.alignItems === \"center\") {\n      const contentH = rect.height - bt - bb - pt - pb;\n      if (contentH > textHeight + 0.5) {\n        textTop = rect.top - vp.y + bt + pt + (contentH - textHeight) / 2;\n      }\n    }\n    const metrics = measureFontMetrics(cs);\n    const fontAscent = metrics.ascent;\n    const fontDescent = metrics.descent;\n    const fontH = fontAscent + fontDescent;\n    const textTopLineBox = textTop;\n    if (cs.lineHeight !== \"normal\" && textHeight > fontH + 0.5) {\n      textTop += (textHeight - fontH) / 2;\n    } else if (fontH > textHeight + 0.5) {\n      textTop -= (fontH - textHeight) / 2;\n    }\n    let textSegments;\n    let inputXOffsets;\n    if (text.length > 0 && tag === \"input\") {\n      const probe = document.createElement(\"span\");\n      probe.style.position = \"absolute\";\n      probe.style.left = \"-9999px\";\n      probe.style.top = \"-9999px\";\n      probe.style.visibility = \"hidden\";\n      probe.style.whiteSpace = \"pre\";\n      probe.style.fontFamily = cs.fontFamily;\n      probe.style.fontSize = cs.fontSize;\n      probe.style.fontWeight = cs.fontWeight;\n      probe.style.fontStyle = cs.fontStyle;\n      probe.style.letterSpacing = cs.letterSpacing;\n      probe.style.fontKerning = cs.fontKerning;\n      probe.style.fontVariationSettings = cs.fontVariationSettings;\n      probe.style.fontOpticalSizing = cs.fontOpticalSizing;\n      probe.style.fontFeatureSettings = cs.fontFeatureSettings;\n      probe.textContent = text;\n      document.body.appendChild(probe);\n      const probeNode = probe.firstChild;\n      if (probeNode != null) {\n        const probeBox = probe.getBoundingClientRect();\n        const probeOriginX = probeBox.left;\n        const xs = [];\n        let i = 0;\n        while (i < text.length) {\n          const code = text.charCodeAt(i);\n          const isHigh = code >= 55296 && code <= 56319 && i + 1 < text.length;\n          const step = isHigh ? 2 : 1;\n          const rng = document.createRange();\n          rng.setStart(probeNode, i);\n          rng.setEnd(probeNode, i + step);\n          const cr = rng.getBoundingClientRect();\n          const left = cr.left - probeOriginX + textLeft;\n          for (let k = 0; k < step; k++) xs.push(left);\n          i += step;\n        }\n        const contentBoxW = rect.width - bl - br - pl - pr;\n        const probeW = probeBox.width;\n        const slack = contentBoxW - probeW;\n        const align = cs.textAlign;\n        const dir = cs.direction;\n        let shift = 0;\n        if (slack > 0) {\n          if (align === \"center\") shift = slack / 2;\n          else if (align === \"right\" || align === \"end\" && dir !== \"rtl\" || align === \"start\" && dir === \"rtl\") shift = slack;\n        }\n        if (shift !== 0) {\n          textLeft += shift;\n          for (let k = 0; k < xs.length; k++) xs[k] += shift;\n        }\n        inputXOffsets = xs;\n      }\n      document.body.removeChild(probe);\n    }\n    if (text.length > 0 && tag === \"textarea\") {\n      const contentBoxW = rect.width - bl - br - pl - pr;\n      const contentBoxH = rect.height - bt - bb - pt - pb;\n      const probe = document.createElement(\"div\");\n      probe.style.position = \"absolute\";\n      probe.style.left = \"0\";\n      probe.style.top = \"-100000px\";\n      probe.style.visibility = \"hidden\";\n      probe.style.boxSizing = \"content-box\";\n      probe.style.width = contentBoxW + \"px\";\n      probe.style.padding = \"0\";\n      probe.style.margin = \"0\";\n      probe.style.border = \"0\";\n      probe.style.fontFamily = cs.fontFamily;\n      probe.style.fontSize = cs.fontSize;\n      probe.style.fontWeight = cs.fontWeight;\n      probe.style.fontStyle = cs.fontStyle;\n      probe.style.fontVariationSettings = cs.fontVariationSettings;\n      probe.style.fontOpticalSizing = cs.fontOpticalSizing;\n      probe.style.fontFeatureSettings = cs.fontFeatureSettings;\n      probe.style.fontKerning = cs.fontKerning;\n      probe.style.letterSpacing = cs.letterSpacing;\n      probe.style.wordSpacing = cs.wordSpacing;\n      probe.style.lineHeight = cs.lineHeight;\n      probe.style.tabSize = cs.tabSize;\n      probe.style.textAlign = cs.textAlign;\n      probe.style.direction = cs.direction;\n      probe.style.whiteSpace = \"pre-wrap\";\n      probe.style.wordWrap = cs.wordWrap || \"normal\";\n      probe.style.overflowWrap = cs.overflowWrap || \"normal\";\n      probe.style.wordBreak = cs.wordBreak || \"normal\";\n      probe.style.hyphens = cs.hyphens || \"manual\";\n      probe.textContent = text;\n      document.body.appendChild(probe);\n      const probeNode = probe.firstChild;\n      if (probeNode != null) {\n        const probeBox = probe.getBoundingClientRect();\n        const probeOriginX = probeBox.left;\n        const probeOriginY = probeBox.top;\n        const lines = [];\n        let cur = null;\n        for (let i = 0; i < text.length; i++) {\n          const ch = text[i];\n          if (ch === \"\\n\") {\n            if (cur != null) {\n              lines.push(cur);\n              cur = null;\n            }\n            continue;\n          }\n          const code = text.charCodeAt(i);\n          const isHigh = code >= 55296 && code <= 56319 && i + 1 < text.length;\n          const step = isHigh ? 2 : 1;\n          const rng = document.createRange();\n          rng.setStart(probeNode, i);\n          rng.setEnd(probeNode, i + step);\n          const cr = rng.getBoundingClientRect();\n          if (cr.width === 0 && cr.height === 0) {\n            i += step - 1;\n            continue;\n          }\n          const charLeft = cr.left - probeOriginX;\n          const charTop = cr.top - probeOriginY;\n          const charRight = cr.right - probeOriginX;\n          const charBottom = cr.bottom - probeOriginY;\n          if (cur == null || charTop - cur.top > Math.max(1, (cur.bottom - cur.top) * 0.5)) {\n            if (cur != null) lines.push(cur);\n            cur = { text: \"\", xOffsets: [], top: charTop, bottom: charBottom, left: charLeft, right: charRight };\n          }\n          for (let k = 0; k < step; k++) {\n            cur.text += text[i + k];\n            cur.xOffsets.push(textLeft + charLeft);\n          }\n          if (charRight > cur.right) cur.right = charRight;\n          if (charBottom > cur.bottom) cur.bottom = charBottom;\n          i += step - 1;\n        }\n        if (cur != null) lines.push(cur);\n        textSegments = lines.map((ln) => ({\n          text: ln.text,\n          x: textLeft + ln.left,\n          // Snap to a whole pixel: Chrome positions glyphs with SUBPIXEL\n          // precision horizontally only — vertically the text origin is rounded\n          // to an integer device pixel before rasterization. Measured directly:\n          // a box at top 40 / 140.25 / 240.5 / 340.75 paints its first ink row\n          // at 45 / 145 / 246 / 346 — always round(top) + a constant, and always\n          // an integer row (identical for a <textarea> and a plain <div>, so this\n          // is glyph rasterization, not a scroll-container effect). A textarea\n          // whose border box lands on a fractional y (here .4375, from ordinary\n          // page flow) therefore had every line rendered up to a pixel off.\n          // The renderer already rounds the ascent it adds to reach the baseline\n          // (`text-to-path.ts`), so rounding the line top rounds the baseline.\n          y: Math.round(textTopLineBox + ln.top),\n          width: ln.right - ln.left,\n          height: ln.bottom - ln.top,\n          xOffsets: ln.xOffsets\n        }));\n      }\n      document.body.removeChild(probe);\n      void contentBoxH;\n    }\n    let placeholderColor;\n    let placeholderFontStyle;\n    let placeholderFontWeight;\n    if (isPlaceholderCapture) {\n      const phCs = window.getComputedStyle(el, \"::placeholder\");\n      placeholderColor = normColor(phCs.color || cs.color);\n      placeholderFontStyle = phCs.fontStyle;\n      placeholderFontWeight = phCs.fontWeight;\n    }\n    return {\n      applied: true,\n      text,\n      textLeft,\n      textTop,\n      textHeight,\n      textWidth,\n      fontAscent,\n      fontDescent,\n      inputXOffsets,\n      textSegments,\n      isPlaceholderCapture,\n      placeholderColor,\n      placeholderFontStyle,\n      placeholderFontWeight\n    };\n  };\n  return { captureInputValue };\n};\n\n// src/capture/script/vertical-orientation.generated.ts\nvar MIXED_VERTICAL_UPRIGHT_RANGES = [\n  [167, 167],\n  [169, 169],\n  [174, 174],\n  [177, 177],\n  [188, 190],\n  [215, 215],\n  [247, 247],\n  [746, 747],\n  [4352, 4607],\n  [5121, 5759],\n  [6320, 6399],\n  [8214, 8214],\n  [8216, 8217],\n  [8220, 8221],\n  [8224, 8225],\n  [8240, 8241],\n  [8251, 8252],\n  [8258, 8258],\n  [8263, 8265],\n  [8273, 8273],\n  [8293, 8293],\n  [8413, 8416],\n  [8418, 8420],\n  [8448, 8449],\n  [8451, 8457],\n  [8463, 8463],\n  [8467, 8468],\n  [8470, 8471],\n  [8478, 8483],\n  [8485, 8485],\n  [8487, 8487],\n  [8489, 8489],\n  [8494, 8494],\n  [8501, 8511],\n  [8517, 8522],\n  [8524, 8525],\n  [8527, 8585],\n  [8588, 8591],\n  [8734, 8734],\n  [8756, 8757],\n  [8960, 8967],\n  [8972, 8991],\n  [8996, 9003],\n  [9085, 9114],\n  [9150, 9165],\n  [9167, 9167],\n  [9169, 9179],\n  [9186, 9250],\n  [9252, 9471],\n  [9632, 9753],\n  [9760, 10087],\n  [10102, 10131],\n  [11026, 11055],\n  [11088, 11097],\n  [11159, 11159],\n  [11192, 11217],\n  [11219, 11243],\n  [11248, 11263],\n  [11856, 11857],\n  [11904, 42191],\n  [43360, 43391],\n  [44032, 55295],\n  [57344, 64255],\n  [65040, 65055],\n  [65072, 65096],\n  [65104, 65111],\n  [65113, 65122],\n  [65127, 65135],\n  [65281, 65292],\n  [65294, 65307],\n  [65311, 65376],\n  [65504, 65511],\n  [65520, 65528],\n  [65532, 65533],\n  [67968, 67999],\n  [71040, 71167],\n  [72192, 72383],\n  [77824, 83583],\n  [94176, 101887],\n  [110576, 111359],\n  [118464, 118735],\n  [118784, 119295],\n  [119520, 119679],\n  [120832, 121519],\n  [126976, 129023],\n  [129280, 129791],\n  [131072, 196605],\n  [196608, 262141],\n  [983040, 1048573],\n  [1048576, 1114109]\n];\n\n// src/capture/script/walker/text-segments.ts\nvar computeElementRaster = (el, cs, tag, rect, vp) => {\n  void el;\n  void cs;\n  void tag;\n  void rect;\n  void vp;\n  return void 0;\n};\nvar mathItalicChar = (ch) => {\n  const code = ch.codePointAt(0);\n  if (code == null) return ch;\n  if (code >= 65 && code <= 90) return String.fromCodePoint(119860 + (code - 65));\n  if (code >= 97 && code <= 122) {\n    if (code === 104) return \"\\u210E\";\n    return String.fromCodePoint(119886 + (code - 97));\n  }\n  if (code >= 913 && code <= 937) return String.fromCodePoint(120546 + (code - 913));\n  if (code >= 945 && code <= 969) return String.fromCodePoint(120572 + (code - 945));\n  switch (code) {\n    case 8706:\n      return String.fromCodePoint(120597);\n    // ∂ → italic partial differential\n    case 1013:\n      return String.fromCodePoint(120598);\n    // ϵ (lunate) → italic epsilon symbol\n    case 977:\n      return String.fromCodePoint(120599);\n    // ϑ (theta sym) → italic theta symbol\n    case 1008:\n      return String.fromCodePoint(120600);\n    // ϰ (kappa sym) → italic kappa symbol\n    case 981:\n      return String.fromCodePoint(120601);\n    // ϕ (phi sym) → italic phi symbol\n    case 1009:\n      return String.fromCodePoint(120602);\n    // ϱ (rho sym) → italic rho symbol\n    case 982:\n      return String.fromCodePoint(120603);\n    // ϖ (pi sym) → italic pi symbol\n    case 8711:\n      return String.fromCodePoint(120571);\n    // ∇ (nabla) → italic nabla (upper-block tail)\n    default:\n      return ch;\n  }\n};\nvar _RE_LETTER = /\\p{L}/u;\nvar _RE_WORD_CHAR = /[\\p{L}\\p{M}\\p{N}]/u;\nvar _MIDWORD_CONNECTORS = \"'\\u2019\\xB7\\u0387\\u05F4\";\nvar TITLECASE_DIGRAPHS = {\n  \"\\u01C4\": \"\\u01C5\",\n  \"\\u01C6\": \"\\u01C5\",\n  \"\\u01C7\": \"\\u01C8\",\n  \"\\u01C9\": \"\\u01C8\",\n  \"\\u01CA\": \"\\u01CB\",\n  \"\\u01CC\": \"\\u01CB\",\n  \"\\u01F1\": \"\\u01F2\",\n  \"\\u01F3\": \"\\u01F2\"\n};\nvar capitalizeCss = (s) => {\n  let atWordStart = true;\n  let out = \"\";\n  for (const ch of s) {\n    if (atWordStart && _RE_LETTER.test(ch)) {\n      out += TITLECASE_DIGRAPHS[ch] || ch.toUpperCase();\n    } else {\n      out += ch;\n    }\n    atWordStart = !_RE_WORD_CHAR.test(ch) && _MIDWORD_CONNECTORS.indexOf(ch) < 0;\n  }\n  return out;\n};\nvar transformTextWithSourceSpans = (source, transform, lang) => {\n  const out = [];\n  let atWordStart = true;\n  for (let i = 0; i < source.length; ) {\n    const cp = source.codePointAt(i);\n    const sourceText = String.fromCodePoint(cp);\n    let rendered = sourceText;\n    if (transform === \"uppercase\") rendered = lang ? sourceText.toLocaleUpperCase(lang) : sourceText.toUpperCase();\n    else if (transform === \"lowercase\") rendered = lang ? sourceText.toLocaleLowerCase(lang) : sourceText.toLowerCase();\n    else if (transform === \"capitalize\" && atWordStart && _RE_LETTER.test(sourceText)) {\n      rendered = TITLECASE_DIGRAPHS[sourceText] || (lang ? sourceText.toLocaleUpperCase(lang) : sourceText.toUpperCase());\n    }\n    out.push({ sourceStart: i, sourceEnd: i + sourceText.length, sourceText, rendered });\n    atWordStart = !_RE_WORD_CHAR.test(sourceText) && _MIDWORD_CONNECTORS.indexOf(sourceText) < 0;\n    i += sourceText.length;\n  }\n  const joined = out.map((part) => part.rendered).join(\"\");\n  const whole = transform === \"uppercase\" ? lang ? source.toLocaleUpperCase(lang) : source.toUpperCase() : transform === \"lowercase\" ? lang ? source.toLocaleLowerCase(lang) : source.toLowerCase() : transform === \"capitalize\" ? capitalizeCss(source) : source;\n  if (whole.length === joined.length && whole !== joined) {\n    let offset = 0;\n    for (const part of out) {\n      part.rendered = whole.slice(offset, offset + part.rendered.length);\n      offset += part.rendered.length;\n    }\n  }\n  return out;\n};\nvar isShapingTransparentControl = (ch) => ch === \"\\u200C\" || ch === \"\\u200D\";\nvar isMixedVerticalUpright = (cp) => {\n  if (cp == null) return false;\n  let lo = 0;\n  let hi = MIXED_VERTICAL_UPRIGHT_RANGES.length - 1;\n  while (lo <= hi) {\n    const mid = lo + hi >>> 1;\n    const range = MIXED_VERTICAL_UPRIGHT_RANGES[mid];\n    if (cp < range[0]) hi = mid - 1;\n    else if (cp > range[1]) lo = mid + 1;\n    else return true;\n  }\n  return false;\n};\nvar resolveCharOrientation = (ch, textOrientation) => {\n  if (textOrientation === \"upright\") return \"upright\";\n  if (textOrientation === \"sideways\") return \"rotated\";\n  return isMixedVerticalUpright(ch.codePointAt(0)) ? \"upright\" : \"rotated\";\n};\nvar buildTextSegmentsHandler = ({ vp, measureFontMetrics, rasterCandidates, normColor, markGetsDottedCircle, finalizeLineClampText }) => {\n  const finishLineClamp = (el, cs, result) => finalizeLineClampText == null ? result : finalizeLineClampText(el, cs, result);\n  const captureVerticalTextSegments = (el, cs) => {\n    const wm = cs.writingMode;\n    const textOrientation = cs.textOrientation || \"mixed\";\n    const isSideways = wm === \"sideways-rl\" || wm === \"sideways-lr\";\n    const effectiveTextOrientation = isSideways ? \"sideways\" : textOrientation;\n    const textSegments = [];\n    let text = \"\";\n    let minLeft = Infinity;\n    let minTop = Infinity;\n    let maxRight = -Infinity;\n    let maxBottom = -Infinity;\n    const _vertCanvas = document.createElement(\"canvas\");\n    const _vertCtx = _vertCanvas.getContext(\"2d\");\n    _vertCtx.font = `${cs.fontStyle || \"normal\"} ${cs.fontWeight || \"400\"} ${cs.fontSize} ${cs.fontFamily}`;\n    const measureNaturalWidth = (ch) => _vertCtx.measureText(ch).width;\n    const allChars = [];\n    for (const node of el.childNodes) {\n      if (node.nodeType !== Node.TEXT_NODE) continue;\n      const sourceRaw = node.textContent || \"\";\n      const tt = cs.textTransform;\n      const mapped = transformTextWithSourceSpans(sourceRaw, tt, cs.lang || el.lang || \"\");\n      const raw = mapped.map((part) => part.rendered).join(\"\");\n      if (!raw.trim()) continue;\n      text += raw.trim() + \" \";\n      for (const part of mapped) {\n        const r = document.createRange();\n        r.setStart(node, part.sourceStart);\n        r.setEnd(node, part.sourceEnd);\n        const cr = r.getBoundingClientRect();\n        const ch = part.rendered;\n        const isWs = /^\\s+$/.test(part.sourceText);\n        if (cr.height === 0 && (cr.width === 0 || isWs)) continue;\n        allChars.push({ ch, x: cr.left, y: cr.top, w: cr.width, h: cr.height, naturalW: measureNaturalWidth(ch) });\n      }\n    }\n    if (allChars.length === 0) {\n      return { applied: true, text: text.trim(), textSegments };\n    }\n    const tcu = cs.textCombineUpright || cs.webkitTextCombine || \"\";\n    const isCombineAll = tcu === \"all\";\n    if (isCombineAll) {\n      const metricsC = measureFontMetrics(cs);\n      let cellTop = Infinity, cellBot = -Infinity, minX = Infinity, maxX = -Infinity;\n      for (const c of allChars) {\n        cellTop = Math.min(cellTop, c.y);\n        cellBot = Math.max(cellBot, c.y + c.h);\n        minX = Math.min(minX, c.x);\n        maxX = Math.max(maxX, c.x + c.w);\n      }\n      const combinedText = allChars.map((c) => c.ch).join(\"\").replace(/[\\t\\n\\r]/g, \" \");\n      const xOffsets = allChars.map((c) => c.x - minX);\n      textSegments.push({\n        text: combinedText,\n        x: minX - vp.x,\n        y: cellTop - vp.y,\n        width: maxX - minX,\n        height: cellBot - cellTop,\n        verticalWritingMode: wm,\n        verticalCombineUpright: true,\n        verticalCombineXOffsets: xOffsets,\n        fontAscent: metricsC.ascent\n      });\n      return {\n        applied: true,\n        text: combinedText,\n        textSegments,\n        textLeft: minX - vp.x,\n        textTop: cellTop - vp.y,\n        textWidth: maxX - minX,\n        textHeight: cellBot - cellTop,\n        fontAscent: metricsC.ascent,\n        fontDescent: metricsC.descent\n      };\n    }\n    const columns = [];\n    let curCol = null;\n    for (const c of allChars) {\n      if (curCol == null || Math.abs(c.x - curCol.x) > 1) {\n        if (curCol != null) columns.push(curCol);\n        curCol = { x: c.x, width: c.w, chars: [c] };\n      } else {\n        curCol.chars.push(c);\n      }\n    }\n    if (curCol != null) columns.push(curCol);\n    const metrics = measureFontMetrics(cs);\n    for (const col of columns) {\n      const colTop = col.chars[0].y;\n      const colBot = col.chars[col.chars.length - 1].y + col.chars[col.chars.length - 1].h;\n      const visualText = col.chars.map((c) => c.ch).join(\"\").replace(/[\\t\\n\\r]/g, \" \");\n      if (visualText.replace(/\\s/g, \"\") === \"\") continue;\n      const yOffsets = [];\n      const verticalOrientations = [];\n      const verticalAdvances = [];\n      const verticalNaturalWidths = [];\n      for (const c of col.chars) {\n        for (let k = 0; k < c.ch.length; k++) {\n          yOffsets.push(c.y - vp.y);\n          verticalOrientations.push(resolveCharOrientation(c.ch, effectiveTextOrientation));\n          verticalAdvances.push(c.h);\n          verticalNaturalWidths.push(c.naturalW);\n        }\n      }\n      textSegments.push({\n        text: visualText,\n        x: col.x - vp.x,\n        y: colTop - vp.y,\n        width: col.width,\n        height: colBot - colTop,\n        verticalWritingMode: wm,\n        verticalOrientations,\n        yOffsets,\n        verticalAdvances,\n        verticalNaturalWidths,\n        fontAscent: metrics.ascent\n      });\n      minLeft = Math.min(minLeft, col.x);\n      minTop = Math.min(minTop, colTop);\n      maxRight = Math.max(maxRight, col.x + col.width);\n      maxBottom = Math.max(maxBottom, colBot);\n    }\n    return {\n      applied: true,\n      text: text.trim(),\n      textSegments,\n      textLeft: minLeft - vp.x,\n      textTop: minTop - vp.y,\n      textWidth: maxRight - minLeft,\n      textHeight: maxBottom - minTop,\n      fontAscent: metrics.ascent,\n      fontDescent: metrics.descent\n    };\n  };\n  const buildFirstLetterSegment = (firstLetterChars, flStyle, hasInitialLetter, el, cs) => {\n    const styledText = firstLetterChars.map((c) => c.ch).join(\"\");\n    const minL = Math.min(...firstLetterChars.map((c) => c.left));\n    const maxR = Math.max(...firstLetterChars.map((c) => c.right));\n    const minT = Math.min(...firstLetterChars.map((c) => c.top));\n    const maxB = Math.max(...firstLetterChars.map((c) => c.bottom));\n    const xoff = [];\n    for (const c of firstLetterChars) {\n      for (let k = 0; k < c.ch.length; k++) xoff.push(c.left - vp.x);\n    }\n    const flMetrics = measureFontMetrics(flStyle);\n    let effectiveFs = parseFloat(flStyle.fontSize) || void 0;\n    let effectiveAscent = flMetrics.ascent;\n    let styledSegY = minT - vp.y;\n    const flFloatSize = flStyle.float || flStyle.cssFloat || \"\";\n    const flIsFloatSize = flFloatSize === \"left\" || flFloatSize === \"right\";\n    if (hasInitialLetter) {\n      const probeCanvas = document.createElement(\"canvas\");\n      const probeCtx = probeCanvas.getContext(\"2d\");\n      probeCtx.font = `${flStyle.fontStyle || \"normal\"} ${flStyle.fontWeight || \"400\"} 100px ${flStyle.fontFamily || \"serif\"}`;\n      const probeM = probeCtx.measureText(styledText);\n      const naturalWidthAt100 = probeM.width;\n      const ascentRatio = probeM.fontBoundingBoxAscent / 100;\n      const hM = probeCtx.measureText(\"H\");\n      const capHeightRatio = hM.actualBoundingBoxAscent / 100;\n      const pseudoComputedW = parseFloat(flStyle.width);\n      if (Number.isFinite(pseudoComputedW) && pseudoComputedW > 0 && naturalWidthAt100 > 0) {\n        const paintedGlyphW = pseudoComputedW;\n        effectiveFs = 100 * paintedGlyphW / naturalWidthAt100;\n        const flFloatForSize = flStyle.float || flStyle.cssFloat || \"\";\n        const pseudoComputedH = parseFloat(flStyle.height);\n        const glyphInkH100 = (probeM.actualBoundingBoxAscent || 0) + (probeM.actualBoundingBoxDescent || 0);\n        const glyphInkW100 = (probeM.actualBoundingBoxLeft || 0) + (probeM.actualBoundingBoxRight || 0);\n        if ((flFloatForSize === \"left\" || flFloatForSize === \"right\") && Number.isFinite(pseudoComputedH) && pseudoComputedH > 0 && glyphInkH100 > 0) {\n          effectiveFs = 100 * pseudoComputedH / glyphInkH100;\n        } else if (!flIsFloatSize && glyphInkW100 > 0) {\n          effectiveFs = 100 * pseudoComputedW / glyphInkW100;\n        }\n        effectiveAscent = effectiveFs * ascentRatio;\n      }\n    }\n    const flFloat = flStyle.float || flStyle.cssFloat || \"\";\n    const padT = parseFloat(flStyle.paddingTop) || 0;\n    const padR = parseFloat(flStyle.paddingRight) || 0;\n    const padB = parseFloat(flStyle.paddingBottom) || 0;\n    const padL = parseFloat(flStyle.paddingLeft) || 0;\n    let pboxL, pboxT, pboxW, pboxH;\n    if (flFloat === \"left\" || flFloat === \"right\") {\n      const pBox = el.getBoundingClientRect();\n      const pPadT = parseFloat(cs.paddingTop) || 0;\n      const pPadL = parseFloat(cs.paddingLeft) || 0;\n      const pPadR = parseFloat(cs.paddingRight) || 0;\n      const pBorT = parseFloat(cs.borderTopWidth) || 0;\n      const pBorL = parseFloat(cs.borderLeftWidth) || 0;\n      const pBorR = parseFloat(cs.borderRightWidth) || 0;\n      const flMarT = parseFloat(flStyle.marginTop) || 0;\n      const flMarL = parseFloat(flStyle.marginLeft) || 0;\n      const flMarR = parseFloat(flStyle.marginRight) || 0;\n      const cw = parseFloat(flStyle.width);\n      const ch_ = parseFloat(flStyle.height);\n      pboxW = (Number.isFinite(cw) && cw > 0 ? cw : maxR - minL) + padL + padR;\n      pboxH = (Number.isFinite(ch_) && ch_ > 0 ? ch_ : maxB - minT) + padT + padB;\n      pboxT = pBox.y + pBorT + pPadT + flMarT - vp.y;\n      pboxL = flFloat === \"left\" ? pBox.x + pBorL + pPadL + flMarL - vp.x : pBox.x + pBox.width - pBorR - pPadR - flMarR - pboxW - vp.x;\n    } else {\n      pboxL = minL - vp.x - padL;\n      pboxT = minT - vp.y - padT;\n      pboxW = maxR - minL + padL + padR;\n      pboxH = maxB - minT + padT + padB;\n    }\n    let flGlyphX = minL - vp.x;\n    const flIsFloat = flFloat === \"left\" || flFloat === \"right\";\n    if (hasInitialLetter && effectiveFs != null && flIsFloat) {\n      const contentBottom = pboxT + pboxH - padB;\n      styledSegY = contentBottom - effectiveAscent;\n      const contentLeft = pboxL + padL;\n      const contentW = pboxW - padL - padR;\n      const glyphW = maxR - minL;\n      flGlyphX = contentLeft + (contentW - glyphW) / 2;\n    }\n    const bwT = parseFloat(flStyle.borderTopWidth) || 0;\n    const bwR_ = parseFloat(flStyle.borderRightWidth) || 0;\n    const bwB = parseFloat(flStyle.borderBottomWidth) || 0;\n    const bwL = parseFloat(flStyle.borderLeftWidth) || 0;\n    const uniformBw = bwT > 0 && bwT === bwR_ && bwT === bwB && bwT === bwL;\n    const bgRaw = flStyle.backgroundColor;\n    const hasBg = bgRaw && bgRaw !== \"\" && bgRaw !== \"rgba(0, 0, 0, 0)\" && bgRaw !== \"transparent\";\n    const bgImgRaw = flStyle.backgroundImage;\n    const hasBgImg = bgImgRaw && bgImgRaw !== \"\" && bgImgRaw !== \"none\";\n    const brad = parseFloat(flStyle.borderRadius) || 0;\n    const hasAnyBox = hasBg || hasBgImg || brad > 0 || bwT > 0 || bwR_ > 0 || bwB > 0 || bwL > 0;\n    const pseudoBox = hasAnyBox ? {\n      x: pboxL,\n      y: pboxT,\n      width: pboxW,\n      height: pboxH,\n      backgroundColor: hasBg ? normColor(bgRaw) : void 0,\n      backgroundImage: hasBgImg ? bgImgRaw : void 0,\n      borderRadius: brad > 0 ? brad : void 0,\n      borderWidth: uniformBw ? bwT : void 0,\n      borderColor: uniformBw ? normColor(flStyle.borderTopColor) : void 0,\n      borL: bwL,\n      borR: bwR_,\n      borT: bwT,\n      borB: bwB,\n      borderTopColor: !uniformBw && bwT > 0 ? normColor(flStyle.borderTopColor) : void 0,\n      borderRightColor: !uniformBw && bwR_ > 0 ? normColor(flStyle.borderRightColor) : void 0,\n      borderBottomColor: !uniformBw && bwB > 0 ? normColor(flStyle.borderBottomColor) : void 0,\n      borderLeftColor: !uniformBw && bwL > 0 ? normColor(flStyle.borderLeftColor) : void 0\n    } : void 0;\n    const flTextShadow = flStyle.textShadow !== \"\" && flStyle.textShadow !== \"none\" && flStyle.textShadow !== cs.textShadow ? flStyle.textShadow : void 0;\n    const styledSeg = {\n      text: styledText,\n      x: flGlyphX,\n      y: styledSegY,\n      width: maxR - minL,\n      height: maxB - minT,\n      xOffsets: xoff,\n      color: normColor(flStyle.color),\n      fontFamily: flStyle.fontFamily,\n      fontSize: effectiveFs,\n      fontWeight: flStyle.fontWeight !== cs.fontWeight ? flStyle.fontWeight : void 0,\n      fontStyle: flStyle.fontStyle !== cs.fontStyle ? flStyle.fontStyle : void 0,\n      fontVariant: flStyle.fontVariant !== cs.fontVariant ? flStyle.fontVariant : void 0,\n      fontAscent: effectiveAscent,\n      textShadow: flTextShadow,\n      pseudoBox\n    };\n    return { seg: styledSeg, minL, maxR, minT, maxB };\n  };\n  const captureTextSegments = (el, cs) => {\n    const wm = cs.writingMode;\n    if (wm === \"vertical-rl\" || wm === \"vertical-lr\" || wm === \"sideways-rl\" || wm === \"sideways-lr\") {\n      return finishLineClamp(el, cs, captureVerticalTextSegments(el, cs));\n    }\n    const textSegments = [];\n    let text = \"\";\n    let minLeft = Infinity;\n    let minTop = Infinity;\n    let maxRight = -Infinity;\n    let maxBottom = -Infinity;\n    const flStyle = window.getComputedStyle(el, \"::first-letter\");\n    const elFsRaw = parseFloat(cs.fontSize) || 0;\n    const flFsRaw = parseFloat(flStyle.fontSize) || 0;\n    const flInitialLetterRaw = (flStyle.initialLetter || flStyle.webkitInitialLetter || \"\").trim();\n    const hasInitialLetter = flInitialLetterRaw !== \"\" && flInitialLetterRaw !== \"normal\" && flInitialLetterRaw !== \"auto\";\n    const firstLetterStyled = flFsRaw > 0 && Math.abs(flFsRaw - elFsRaw) > 0.5 || flStyle.color !== \"\" && flStyle.color !== cs.color || flStyle.fontWeight !== \"\" && flStyle.fontWeight !== cs.fontWeight || flStyle.fontFamily !== \"\" && flStyle.fontFamily !== cs.fontFamily || flStyle.fontStyle !== \"\" && flStyle.fontStyle !== cs.fontStyle || flStyle.textShadow !== \"\" && flStyle.textShadow !== \"none\" && flStyle.textShadow !== cs.textShadow || hasInitialLetter;\n    const isFirstLetterPunct = (ch) => /\\p{P}/u.test(ch);\n    const isCombiningMark = (ch) => /\\p{M}/u.test(ch);\n    const selectFirstLetter = (chars) => {\n      let i = 0;\n      while (i < chars.length && /\\s/.test(chars[i].ch)) i++;\n      const start = i;\n      while (i < chars.length && isFirstLetterPunct(chars[i].ch)) i++;\n      if (i < chars.length && !/\\s/.test(chars[i].ch) && !isFirstLetterPunct(chars[i].ch)) {\n        i++;\n        while (i < chars.length && isCombiningMark(chars[i].ch)) i++;\n      }\n      while (i < chars.length && isFirstLetterPunct(chars[i].ch)) i++;\n      return { start, end: i };\n    };\n    let firstLetterChars = null;\n    let firstLetterStartIdx = -1;\n    let firstLetterEndIdx = -1;\n    let didEmitStyledFirstLetter = false;\n    const elTag = el.tagName != null ? el.tagName.toLowerCase() : \"\";\n    const _miText = (el.textContent || \"\").trim();\n    const mathItalicizeMi = elTag === \"mi\" && [..._miText].length === 1 && cs.textTransform === \"math-auto\" && /^[a-zA-ZΑ-ΩΆΈΉΊΌΎΏα-ωϐϑϕϖϗϰϱϵ∂∇]$/u.test(_miText);\n    for (const node of el.childNodes) {\n      if (node.nodeType !== Node.TEXT_NODE) continue;\n      const sourceRaw = node.textContent || \"\";\n      const tt = cs.textTransform;\n      const mapped = transformTextWithSourceSpans(sourceRaw, tt, cs.lang || el.lang || \"\");\n      const raw = mapped.map((part) => part.rendered).join(\"\");\n      if (!raw.trim()) continue;\n      const rawForText = mathItalicizeMi ? mathItalicChar(raw.trim()) : raw.trim();\n      text += rawForText + \" \";\n      const lines = [];\n      let cur = null;\n      for (let sourcePartIndex = 0; sourcePartIndex < mapped.length; sourcePartIndex++) {\n        const part = mapped[sourcePartIndex];\n        const r = document.createRange();\n        r.setStart(node, part.sourceStart);\n        r.setEnd(node, part.sourceEnd);\n        const cr = r.getBoundingClientRect();\n        const isWs = /^\\s+$/.test(part.sourceText);\n        if (cr.width === 0 && (cr.height === 0 || isWs)) continue;\n        let ch = part.rendered;\n        if (mathItalicizeMi) ch = mathItalicChar(ch);\n        let topForGroup = cr.top;\n        let leftForGroup = cr.left;\n        let rightForGroup = cr.right;\n        let bottomForGroup = cr.bottom;\n        if (cur != null && cur.chars.length > 0) {\n          const refH = cur.bottom - cur.top || 16;\n          if (cr.height > refH * 1.5 && cr.bottom > cur.bottom + refH * 0.5) {\n            const peekPart = mapped[sourcePartIndex + 1];\n            if (peekPart != null) {\n              const pr = document.createRange();\n              pr.setStart(node, peekPart.sourceStart);\n              pr.setEnd(node, peekPart.sourceEnd);\n              const pcr = pr.getBoundingClientRect();\n              if (pcr.height > 0 && pcr.height < refH * 1.5) {\n                topForGroup = pcr.top;\n                bottomForGroup = pcr.bottom;\n                leftForGroup = cr.left;\n                rightForGroup = pcr.left;\n              }\n            } else {\n              topForGroup = cr.bottom - refH;\n            }\n          }\n        }\n        const charRec = {\n          ch,\n          sourceText: part.sourceText,\n          left: leftForGroup,\n          top: topForGroup,\n          right: rightForGroup,\n          bottom: bottomForGroup,\n          transformedLengthChanged: ch.length !== part.sourceText.length\n        };\n        if (cur == null || Math.abs(topForGroup - cur.top) > 1) {\n          if (cur != null) lines.push(cur);\n          cur = { chars: [charRec], top: topForGroup, bottom: bottomForGroup, left: leftForGroup, right: rightForGroup };\n        } else {\n          cur.chars.push(charRec);\n          cur.left = Math.min(cur.left, leftForGroup);\n          cur.right = Math.max(cur.right, rightForGroup);\n          cur.bottom = Math.max(cur.bottom, bottomForGroup);\n        }\n      }\n      if (cur != null) lines.push(cur);\n      const fragmentedLines = [];\n      for (const ln of lines) {\n        if (ln.chars.length <= 1) {\n          fragmentedLines.push(ln);\n          continue;\n        }\n        let frag = { chars: [ln.chars[0]], top: ln.top, bottom: ln.bottom };\n        const fragments = [frag];\n        const BIDI_FRAGMENT_GAP_PX = 80;\n        for (let ci = 1; ci < ln.chars.length; ci++) {\n          const prev = ln.chars[ci - 1];\n          const cc = ln.chars[ci];\n          const leftJump = cc.left < prev.left - BIDI_FRAGMENT_GAP_PX;\n          const rightJump = cc.left > prev.right + BIDI_FRAGMENT_GAP_PX;\n          if (leftJump || rightJump) {\n            frag = { chars: [cc], top: ln.top, bottom: ln.bottom };\n            fragments.push(frag);\n          } else {\n            frag.chars.push(cc);\n          }\n        }\n        for (const f of fragments) {\n          let l = Infinity;\n          let r = -Infinity;\n          for (const c of f.chars) {\n            if (c.left < l) l = c.left;\n            if (c.right > r) r = c.right;\n          }\n          f.left = l;\n          f.right = r;\n          fragmentedLines.push(f);\n        }\n      }\n      lines.length = 0;\n      for (const fl of fragmentedLines) lines.push(fl);\n      for (const ln of lines) {\n        ln.text = ln.chars.map((c) => c.ch).join(\"\");\n        ln.sourceText = ln.chars.map((c) => c.sourceText).join(\"\");\n        if (!ln.chars.some((c) => c.transformedLengthChanged)) {\n          const xo = [];\n          for (const c of ln.chars) {\n            for (let k = 0; k < c.ch.length; k++) xo.push(c.left);\n          }\n          ln.xOffsets = xo;\n        }\n      }\n      for (const line of lines) {\n        const visualText = line.text.replace(/[\\t\\n\\r]/g, \" \");\n        if (visualText.replace(/\\s/g, \"\") === \"\") continue;\n        const isFirstStyledLine = firstLetterStyled && firstLetterChars == null;\n        if (isFirstStyledLine) {\n          const sel = selectFirstLetter(line.chars);\n          firstLetterStartIdx = sel.start;\n          firstLetterEndIdx = sel.end;\n          firstLetterChars = [];\n        }\n        const rasterGlyphs = [];\n        const rasterSpans = rasterCandidates(visualText, cs.fontVariantEmoji);\n        const rasterSpanAt = new Map(rasterSpans.map((span) => [span.start, span]));\n        const dottedCircleMarks = [];\n        let probeConsulted = false;\n        let clusterHasBase = false;\n        let utf16Idx = 0;\n        for (let ci = 0; ci < line.chars.length; ci++) {\n          const cRec = line.chars[ci];\n          const cp = cRec.ch.codePointAt(0);\n          const isMark = /\\p{M}/u.test(cRec.ch);\n          const isWs = /^\\s+$/.test(cRec.ch);\n          const isClusterLetter = !isMark && /\\p{Lo}|\\p{Lm}/u.test(cRec.ch);\n          let flaggedHere = false;\n          if (markGetsDottedCircle != null && (isMark || isClusterLetter) && !clusterHasBase && cp != null) {\n            probeConsulted = true;\n            if (markGetsDottedCircle(cp, cRec.ch, cs.fontFamily)) {\n              dottedCircleMarks.push(utf16Idx);\n              flaggedHere = true;\n            }\n          }\n          if (flaggedHere) {\n            clusterHasBase = true;\n          } else if (isMark) {\n          } else if (isWs) {\n            clusterHasBase = false;\n          } else if (isShapingTransparentControl(cRec.ch)) {\n          } else {\n            clusterHasBase = true;\n          }\n          const isFirstLetterChar = isFirstStyledLine && ci >= firstLetterStartIdx && ci < firstLetterEndIdx;\n          if (isFirstLetterChar) {\n            firstLetterChars.push(cRec);\n            rasterGlyphs.push({\n              charIndex: utf16Idx,\n              rect: { x: 0, y: 0, width: 0, height: 0 },\n              suppressGlyph: true\n            });\n          } else if (cp != null && rasterSpanAt.has(utf16Idx)) {\n            const span = rasterSpanAt.get(utf16Idx);\n            let spanRight = cRec.right;\n            let spanBottom = cRec.bottom;\n            let spanCi = ci + 1;\n            let spanUtf16 = utf16Idx + cRec.ch.length;\n            while (spanCi < line.chars.length && spanUtf16 < span.end) {\n              const member = line.chars[spanCi++];\n              spanRight = Math.max(spanRight, member.right);\n              spanBottom = Math.max(spanBottom, member.bottom);\n              spanUtf16 += member.ch.length;\n            }\n            rasterGlyphs.push({\n              charIndex: utf16Idx,\n              charLength: span.end - span.start,\n              rect: {\n                x: cRec.left - vp.x,\n                y: cRec.top - vp.y,\n                width: spanRight - cRec.left,\n                height: spanBottom - cRec.top\n              },\n              // DM-905: the embedded-font default path emits the codepoint\n              // as a PUA `<text>` against the system fallback subset font\n              // where it lands as the font's .notdef tofu — peeking out\n              // past the rasterGlyph overlay's edges. Suppressing the glyph\n              // replaces the codepoint with ZWSP before the emit so only\n              // the raster image paints.\n              suppressGlyph: true\n            });\n          }\n          utf16Idx += cRec.ch.length;\n        }\n        textSegments.push({\n          text: visualText,\n          sourceText: line.sourceText,\n          x: line.left - vp.x,\n          y: line.top - vp.y,\n          width: line.right - line.left,\n          height: line.bottom - line.top,\n          // A length-changing transform (e.g. ß → SS) has one DOM Range for\n          // multiple rendered codepoints, so CSSOM exposes no internal glyph\n          // anchors. Let HarfBuzz shape that rendered run normally instead of\n          // inventing duplicate offsets from the source span.\n          xOffsets: line.xOffsets?.map((v) => v - vp.x),\n          // AX exposes the exact retained fragment after this synchronous\n          // walk. Keep Range advances so the refinement can remove laid-out\n          // but unpainted clamp-tail glyphs without estimating their widths.\n          xAdvances: line.xOffsets == null ? void 0 : line.chars.flatMap((c) => Array.from({ length: c.ch.length }, () => c.right - c.left)),\n          rasterGlyphs: rasterGlyphs.length > 0 ? rasterGlyphs : void 0,\n          dottedCircleMarks: dottedCircleMarks.length > 0 ? dottedCircleMarks : probeConsulted ? [] : void 0\n        });\n        minLeft = Math.min(minLeft, line.left);\n        minTop = Math.min(minTop, line.top);\n        maxRight = Math.max(maxRight, line.right);\n        maxBottom = Math.max(maxBottom, line.bottom);\n      }\n    }\n    if (firstLetterChars != null && firstLetterChars.length > 0) {\n      const fl = buildFirstLetterSegment(firstLetterChars, flStyle, hasInitialLetter, el, cs);\n      textSegments.unshift(fl.seg);\n      didEmitStyledFirstLetter = true;\n      minLeft = Math.min(minLeft, fl.minL);\n      minTop = Math.min(minTop, fl.minT);\n      maxRight = Math.max(maxRight, fl.maxR);\n      maxBottom = Math.max(maxBottom, fl.maxB);\n    }\n    const flLineTargetIdx = didEmitStyledFirstLetter ? 1 : 0;\n    if (textSegments.length > flLineTargetIdx) {\n      const flLineStyle = window.getComputedStyle(el, \"::first-line\");\n      const firstSeg = textSegments[flLineTargetIdx];\n      if (flLineStyle.textTransform !== cs.textTransform && firstSeg.sourceText != null) {\n        const firstLineMap = transformTextWithSourceSpans(\n          firstSeg.sourceText,\n          flLineStyle.textTransform,\n          flLineStyle.lang || cs.lang || el.lang || \"\"\n        );\n        firstSeg.text = firstLineMap.map((part) => part.rendered).join(\"\").replace(/[\\t\\n\\r]/g, \" \");\n        if (firstLineMap.some((part) => part.rendered.length !== part.sourceText.length)) firstSeg.xOffsets = void 0;\n      }\n      if (flLineStyle.fontVariant !== \"\" && flLineStyle.fontVariant !== cs.fontVariant) {\n        firstSeg.fontVariant = flLineStyle.fontVariant;\n      }\n      if (flLineStyle.color !== \"\" && flLineStyle.color !== cs.color) {\n        firstSeg.color = flLineStyle.color;\n      }\n      if (flLineStyle.fontWeight !== \"\" && flLineStyle.fontWeight !== cs.fontWeight) {\n        firstSeg.fontWeight = flLineStyle.fontWeight;\n      }\n      if (flLineStyle.fontStyle !== \"\" && flLineStyle.fontStyle !== cs.fontStyle) {\n        firstSeg.fontStyle = flLineStyle.fontStyle;\n      }\n      const flFs = parseFloat(flLineStyle.fontSize);\n      const elFs2 = parseFloat(cs.fontSize);\n      if (flFs > 0 && Math.abs(flFs - elFs2) > 0.1) {\n        firstSeg.fontSize = flFs;\n      }\n    }\n    text = text.trim();\n    if (minLeft < Infinity) {\n      const metrics = measureFontMetrics(cs);\n      return finishLineClamp(el, cs, {\n        applied: true,\n        text,\n        textSegments,\n        textLeft: minLeft - vp.x,\n        textTop: minTop - vp.y,\n        textWidth: maxRight - minLeft,\n        textHeight: maxBottom - minTop,\n        fontAscent: metrics.ascent,\n        fontDescent: metrics.descent\n      });\n    }\n    return finishLineClamp(el, cs, { applied: true, text, textSegments });\n  };\n  return { captureTextSegments };\n};\nvar createTextSegmentsHandler = (dependencies) => buildTextSegmentsHandler(dependencies);\n\n// src/capture/script/walker/pseudo-inject.ts\nvar createPseudoInjectHandler = () => {\n  const injectPseudoSegments = (el, pseudoSegments, textSegments, state) => {\n    const pseudoImages = [];\n    let { text, textLeft, textTop, textWidth, textHeight, fontAscent } = state;\n    for (const p of pseudoSegments) {\n      if (p.imageUrl) {\n        const mL = p.boxMarginLeft || 0;\n        const mR = p.boxMarginRight || 0;\n        const bL = p.boxBorderLeft || 0;\n        const bR = p.boxBorderRight || 0;\n        const pL = p.boxPaddingLeft || 0;\n        const pR = p.boxPaddingRight || 0;\n        if (p.isBefore && textSegments.length > 0) {\n          const firstSeg = textSegments[0];\n          p.seg.x = firstSeg.x - p.seg.width - pR - bR - mR;\n          p.seg.y = firstSeg.y + (firstSeg.height - p.seg.height) / 2;\n        } else if (!p.isBefore && textSegments.length > 0) {\n          const lastSeg = textSegments[textSegments.length - 1];\n          p.seg.x = lastSeg.x + lastSeg.width + mL + bL + pL;\n          p.seg.y = lastSeg.y + (lastSeg.height - p.seg.height) / 2;\n        }\n        pseudoImages.push({\n          url: p.imageUrl,\n          x: p.seg.x,\n          y: p.seg.y,\n          width: p.renderWidth,\n          height: p.renderHeight,\n          filter: p.filter,\n          opacity: p.opacity,\n          transform: p.transform,\n          transformOrigin: p.transformOrigin\n        });\n        continue;\n      }\n      if (p.isPositioned) {\n        if (p.isBefore) textSegments.unshift(p.seg);\n        else textSegments.push(p.seg);\n      } else if (p.isBefore && textSegments.length > 0) {\n        const firstSeg = textSegments[0];\n        const bs = p.boxStyles || {};\n        const mRb = parseFloat(window.getComputedStyle(el, \"::before\").marginRight) || 0;\n        const flushX = firstSeg.x - p.seg.width - (bs.padR || 0) - (bs.borR || 0) - mRb;\n        p.seg.x = Math.min(flushX, p.seg.x);\n        p.seg.y = firstSeg.y;\n        p.seg.height = firstSeg.height;\n        textSegments.unshift(p.seg);\n      } else if (!p.isBefore && textSegments.length > 0) {\n        const lastSeg = textSegments[textSegments.length - 1];\n        const bs = p.boxStyles || {};\n        const mLa = parseFloat(window.getComputedStyle(el, \"::after\").marginLeft) || 0;\n        const hcs = window.getComputedStyle(el);\n        const hostIsFlex = hcs.display === \"flex\" || hcs.display === \"inline-flex\";\n        const hostJc = hcs.justifyContent;\n        const flexSpread = hostIsFlex && hostJc != null && hostJc !== \"\" && hostJc !== \"flex-start\" && hostJc !== \"start\" && hostJc !== \"normal\";\n        if (flexSpread) {\n          if (hcs.alignItems === \"center\") {\n            const elRect2 = el.getBoundingClientRect();\n            const padT = parseFloat(hcs.paddingTop) || 0;\n            const padB = parseFloat(hcs.paddingBottom) || 0;\n            const borT = parseFloat(hcs.borderTopWidth) || 0;\n            const borB = parseFloat(hcs.borderBottomWidth) || 0;\n            const contentCenterY = elRect2.top + borT + padT + (elRect2.height - borT - borB - padT - padB) / 2;\n            const pseudoFs = p.seg.fontSize || lastSeg.height;\n            let lineH = parseFloat(window.getComputedStyle(el, \"::after\").lineHeight);\n            if (isNaN(lineH) || lineH <= 0) lineH = pseudoFs * 1.2;\n            p.seg.y = contentCenterY - lineH / 2;\n            p.seg.height = pseudoFs;\n          } else {\n            p.seg.y = lastSeg.y;\n            p.seg.height = lastSeg.height;\n          }\n        } else {\n          p.seg.x = lastSeg.x + lastSeg.width + mLa + (bs.borL || 0) + (bs.padL || 0);\n          p.seg.y = lastSeg.y;\n          p.seg.height = lastSeg.height;\n        }\n        const elRect = el.getBoundingClientRect();\n        const ecs = window.getComputedStyle(el);\n        const pdL = parseFloat(ecs.paddingLeft) || 0;\n        const bdL = parseFloat(ecs.borderLeftWidth) || 0;\n        const lastBottom = lastSeg.y + lastSeg.height;\n        const elBottom = elRect.bottom - (parseFloat(ecs.paddingBottom) || 0) - (parseFloat(ecs.borderBottomWidth) || 0);\n        const wrapThreshold = lastSeg.height * 0.8;\n        if (elBottom - lastBottom >= wrapThreshold) {\n          p.seg.x = elRect.x + bdL + pdL;\n          p.seg.y = lastBottom;\n          const trimmedText = p.seg.text.replace(/^\\s+/, \"\");\n          if (trimmedText !== p.seg.text && trimmedText !== \"\") {\n            const aps = window.getComputedStyle(el, \"::after\");\n            const sp = document.createElement(\"span\");\n            sp.style.cssText = \"position:absolute;visibility:hidden;white-space:pre;left:-99999px;top:-99999px;margin:0;padding:0;border:0\";\n            sp.style.fontFamily = aps.fontFamily;\n            sp.style.fontSize = aps.fontSize;\n            sp.style.fontWeight = aps.fontWeight;\n            sp.style.fontStyle = aps.fontStyle;\n            sp.style.letterSpacing = aps.letterSpacing;\n            sp.textContent = trimmedText;\n            document.body.appendChild(sp);\n            const wTrim = sp.getBoundingClientRect().width;\n            sp.remove();\n            p.seg.text = trimmedText;\n            if (wTrim > 0) p.seg.width = wTrim;\n          }\n        }\n        textSegments.push(p.seg);\n      } else if (!p.isBefore) {\n        const ps = window.getComputedStyle(el, \"::after\");\n        const sentinel = document.createElement(\"span\");\n        sentinel.style.cssText = \"visibility:hidden;pointer-events:none;white-space:pre\";\n        sentinel.style.fontFamily = ps.fontFamily;\n        sentinel.style.fontSize = ps.fontSize;\n        sentinel.style.fontWeight = ps.fontWeight;\n        sentinel.style.fontStyle = ps.fontStyle;\n        sentinel.style.letterSpacing = ps.letterSpacing;\n        sentinel.style.marginLeft = ps.marginLeft;\n        sentinel.textContent = p.seg.text;\n        el.appendChild(sentinel);\n        const sr = sentinel.getBoundingClientRect();\n        sentinel.remove();\n        if (sr.width > 0 || sr.height > 0) {\n          p.seg.x = sr.left;\n          p.seg.y = sr.top + (sr.height - p.seg.height) / 2;\n        }\n        textSegments.push(p.seg);\n      } else {\n        textSegments.push(p.seg);\n      }\n      if (textSegments.length === 1 && textSegments[0] === p.seg) {\n        textLeft = p.seg.x;\n        textTop = p.seg.y;\n        textWidth = p.seg.width;\n        textHeight = p.seg.height;\n        if (p.seg.fontAscent != null) fontAscent = p.seg.fontAscent;\n      }\n      if (p.seg.rasterRect != null) {\n        const isHostSized = p.seg.rasterRect.width > p.seg.width + 1;\n        if (!isHostSized) {\n          p.seg.rasterRect.x = p.seg.x;\n          p.seg.rasterRect.y = p.seg.y;\n          p.seg.rasterRect.height = p.seg.height;\n          if (p.seg.rasterEmojiSide != null && p.seg.rasterEmojiSide > p.seg.height) {\n            const vpad = (p.seg.rasterEmojiSide - p.seg.height) / 2;\n            p.seg.rasterRect.y -= vpad;\n            p.seg.rasterRect.height += 2 * vpad;\n          }\n        }\n      }\n      if (p.boxStyles != null) {\n        const bs = p.boxStyles;\n        const lineCenter = p.seg.y + bs.fontSize / 2;\n        const boxTop = lineCenter - bs.lineH / 2 - bs.padT - bs.borT;\n        const bx = p.seg.x - bs.padL - bs.borL;\n        const bw = bs.measuredWidth || p.seg.width + bs.padL + bs.padR + bs.borL + bs.borR;\n        const bh = bs.measuredHeight || bs.lineH + bs.padT + bs.padB + bs.borT + bs.borB;\n        if (bw > 0 && bh > 0) {\n          p.seg.pseudoBox = {\n            x: bx,\n            y: boxTop,\n            width: bw,\n            height: bh,\n            backgroundColor: bs.backgroundColor,\n            // DM-782: gradient/url() bg-image plumbing — renderer threads\n            // each comma-separated layer through `buildBackgroundLayerDef`\n            // and paints rect(s) behind the glyphs (mirrors the empty-\n            // content pseudoBox path in `element-tree-to-svg.ts`).\n            backgroundImage: bs.backgroundImage,\n            borderRadius: bs.borderRadius,\n            borderWidth: bs.borderWidth,\n            borderColor: bs.borderColor,\n            // Per-side widths + colors for non-uniform borders (e.g. a\n            // bare `border-bottom` on a pseudo). Width fields are always\n            // emitted so the renderer doesn't have to fall back to zero\n            // when a `borderWidth` (uniform) shorthand is absent.\n            borL: bs.borL,\n            borR: bs.borR,\n            borT: bs.borT,\n            borB: bs.borB,\n            borderTopColor: bs.borderTopColor,\n            borderRightColor: bs.borderRightColor,\n            borderBottomColor: bs.borderBottomColor,\n            borderLeftColor: bs.borderLeftColor,\n            // DM-783: pseudo's `transform` + `transformOrigin`. Renderer\n            // wraps the box + glyphs in a pre-baked\n            // translate-(transform)-translate matrix so the rotation/scale\n            // pivots around the box-relative origin instead of (0,0).\n            transform: bs.transform,\n            transformOrigin: bs.transformOrigin,\n            filter: bs.filter,\n            opacity: bs.opacity\n          };\n        }\n      }\n      text = p.isBefore ? p.seg.text + \" \" + text : text + \" \" + p.seg.text;\n    }\n    return { pseudoImages, text, textLeft, textTop, textWidth, textHeight, fontAscent };\n  };\n  return { injectPseudoSegments };\n};\n\n// src/render/resize-handle.ts\nfunction blinkOverflowValueIsScrollable(value) {\n  const normalized = value?.trim().toLowerCase();\n  return normalized != null && normalized !== \"visible\" && normalized !== \"clip\";\n}\nfunction blinkIsScrollContainer(input) {\n  return input.isLayoutReplaced !== true && (blinkOverflowValueIsScrollable(input.overflowX) || blinkOverflowValueIsScrollable(input.overflowY));\n}\nfunction blinkCanResize(input) {\n  const resize = input.resize?.trim().toLowerCase();\n  return resize != null && resize !== \"none\" && (input.isLayoutIFrame === true || blinkIsScrollContainer(input));\n}\nfunction blinkResizerIsOnLogicalLeft(direction, writingMode) {\n  return direction?.trim().toLowerCase() === \"rtl\" && (writingMode == null || writingMode.trim().toLowerCase() === \"horizontal-tb\");\n}\nfunction blinkResizerThickness(input) {\n  const vertical = input.verticalScrollbarThickness;\n  const horizontal = input.horizontalScrollbarThickness;\n  if (vertical == null && horizontal == null) {\n    return {\n      width: input.themeThickness,\n      height: input.themeThickness,\n      hasScrollbar: false\n    };\n  }\n  if (vertical != null && horizontal == null) {\n    return { width: vertical, height: vertical, hasScrollbar: true };\n  }\n  if (vertical == null && horizontal != null) {\n    return { width: horizontal, height: horizontal, hasScrollbar: true };\n  }\n  return { width: vertical, height: horizontal, hasScrollbar: true };\n}\nfunction blinkPixelSnappedSize(size, location2) {\n  let snapped = Math.round(location2 + size) - Math.round(location2);\n  if (snapped === 0 && Math.abs(size) > 4 / 64) snapped = size > 0 ? 1 : -1;\n  return snapped;\n}\nfunction blinkResizerCorner(input) {\n  const originX = Math.round(input.x);\n  const originY = Math.round(input.y);\n  const snappedWidth = blinkPixelSnappedSize(input.borderBoxWidth, input.x);\n  const snappedHeight = blinkPixelSnappedSize(input.borderBoxHeight, input.y);\n  return {\n    x: originX + (input.logicalLeft ? input.borderLeftWidth : snappedWidth - input.cornerWidth - input.borderRightWidth),\n    y: originY + snappedHeight - input.cornerHeight - input.borderBottomWidth,\n    width: input.cornerWidth,\n    height: input.cornerHeight\n  };\n}\nfunction blinkUsesCustomResizer(canResize, isScrollContainer, pseudoRuleMatched) {\n  return canResize && isScrollContainer && pseudoRuleMatched;\n}\n\n// src/capture/script/walker/resize-handle.ts\nvar _layoutReplacedTags = /* @__PURE__ */ new Set([\n  \"img\",\n  \"video\",\n  \"canvas\",\n  \"object\",\n  \"embed\",\n  \"audio\",\n  \"iframe\",\n  \"input\",\n  \"select\"\n]);\nvar _hasAxisScrollbar = (overflow, scrollExtent, clientExtent) => {\n  if (overflow === \"scroll\") return true;\n  return overflow === \"auto\" && scrollExtent > clientExtent;\n};\nvar createResizeHandleHandler = ({\n  resolvePseudo,\n  normColor,\n  effectiveZoomFor,\n  themeThickness,\n  scaleFromDIP,\n  vp\n}) => {\n  const captureResizeHandle = (el, cs, tag, rect) => {\n    const activation = {\n      resize: cs.resize,\n      overflowX: cs.overflowX,\n      overflowY: cs.overflowY,\n      isLayoutReplaced: _layoutReplacedTags.has(tag),\n      isLayoutIFrame: tag === \"iframe\"\n    };\n    if (!blinkCanResize(activation)) return void 0;\n    const isScrollContainer = blinkIsScrollContainer(activation);\n    const zoom = effectiveZoomFor(el);\n    const borderLeft = Math.round((parseFloat(cs.borderLeftWidth) || 0) * zoom);\n    const borderRight = Math.round((parseFloat(cs.borderRightWidth) || 0) * zoom);\n    const borderBottom = Math.round((parseFloat(cs.borderBottomWidth) || 0) * zoom);\n    const hasVertical = isScrollContainer && _hasAxisScrollbar(cs.overflowY, el.scrollHeight, el.clientHeight);\n    const hasHorizontal = isScrollContainer && _hasAxisScrollbar(cs.overflowX, el.scrollWidth, el.clientWidth);\n    const verticalGap = Math.max(0, rect.width - el.clientWidth * zoom - borderLeft - borderRight);\n    const horizontalGap = Math.max(\n      0,\n      rect.height - el.clientHeight * zoom - Math.round((parseFloat(cs.borderTopWidth) || 0) * zoom) - borderBottom\n    );\n    const thickness = blinkResizerThickness({\n      themeThickness,\n      verticalScrollbarThickness: hasVertical ? verticalGap > 0.5 ? Math.round(verticalGap) : themeThickness : null,\n      horizontalScrollbarThickness: hasHorizontal ? horizontalGap > 0.5 ? Math.round(horizontalGap) : themeThickness : null\n    });\n    const logicalLeft = blinkResizerIsOnLogicalLeft(cs.direction, cs.writingMode);\n    const corner = blinkResizerCorner({\n      x: rect.left,\n      y: rect.top,\n      borderBoxWidth: rect.width,\n      borderBoxHeight: rect.height,\n      borderLeftWidth: borderLeft,\n      borderRightWidth: borderRight,\n      borderBottomWidth: borderBottom,\n      cornerWidth: thickness.width,\n      cornerHeight: thickness.height,\n      logicalLeft\n    });\n    const pseudo = resolvePseudo(el, \"resizer\");\n    const custom = blinkUsesCustomResizer(true, isScrollContainer, pseudo.matched) ? {\n      // Authored dimensions are evidence only. Blink overrides the custom\n      // layout object's size with CornerRect before ObjectPainter runs.\n      authoredWidth: pseudo.width || void 0,\n      authoredHeight: pseudo.height || void 0,\n      backgroundColor: pseudo.backgroundColor ? normColor(pseudo.backgroundColor) : void 0,\n      backgroundImage: pseudo.backgroundImage || void 0,\n      borderRadius: pseudo.borderRadius || void 0,\n      border: pseudo.border || void 0,\n      boxShadow: pseudo.boxShadow || void 0,\n      effectiveZoom: zoom\n    } : void 0;\n    return {\n      x: corner.x - vp.x,\n      y: corner.y - vp.y,\n      width: corner.width,\n      height: corner.height,\n      logicalLeft,\n      scaleFromDIP,\n      hasScrollbar: thickness.hasScrollbar,\n      custom\n    };\n  };\n  return { captureResizeHandle };\n};\n\n// src/capture/script/line-clamp.ts\nvar parseBlinkLineClampCount = (value) => {\n  if (typeof value !== \"string\" || !/^\\s*[1-9]\\d*\\s*$/.test(value)) return null;\n  const count = Number.parseInt(value, 10);\n  return Number.isSafeInteger(count) && count > 0 ? count : null;\n};\nvar blinkLineClampActivation = ({\n  webkitLineClamp,\n  webkitBoxOrient,\n  computedDisplay,\n  behaviorallyClamps\n}) => {\n  const clampCount = parseBlinkLineClampCount(webkitLineClamp);\n  if (clampCount == null) return null;\n  if (webkitBoxOrient !== \"vertical\") return null;\n  if (computedDisplay !== \"flow-root\") return null;\n  if (behaviorallyClamps !== true) return null;\n  return { clampCount };\n};\nvar blinkLineClampEllipsisText = (primaryFontHasHorizontalEllipsis) => primaryFontHasHorizontalEllipsis ? \"\\u2026\" : \"...\";\nvar blinkShouldEmitLineClampEllipsis = ({\n  active,\n  clampCount,\n  totalLineCount,\n  emptyLine = false,\n  blockInInline = false\n}) => active === true && Number.isInteger(clampCount) && clampCount > 0 && totalLineCount > clampCount && !emptyLine && !blockInInline;\nvar blinkLineClampInlineStart = ({\n  direction,\n  adjacentInlineStart,\n  adjacentInlineEnd,\n  ellipsisAdvance\n}) => direction === \"rtl\" ? adjacentInlineStart - ellipsisAdvance : adjacentInlineEnd;\nvar blinkLineClampLineIsVisible = (logicalLineIndex, clampCount) => Number.isInteger(logicalLineIndex) && Number.isInteger(clampCount) && logicalLineIndex >= 0 && logicalLineIndex < clampCount;\nvar VERTICAL_WRITING_RE = /^(?:vertical|sideways)-/;\nvar collectTextCharacters = (root, vertical) => {\n  const chars = [];\n  const walker = root.ownerDocument.createTreeWalker(root, NodeFilter.SHOW_TEXT);\n  for (let node = walker.nextNode(); node != null; node = walker.nextNode()) {\n    const owner = node.parentElement;\n    if (owner == null) continue;\n    const ownerStyle = getComputedStyle(owner);\n    if (ownerStyle.display === \"none\" || ownerStyle.visibility === \"hidden\") continue;\n    const source = node.textContent || \"\";\n    for (let offset = 0; offset < source.length; ) {\n      const cp = source.codePointAt(offset);\n      const ch = String.fromCodePoint(cp);\n      const range = root.ownerDocument.createRange();\n      range.setStart(node, offset);\n      range.setEnd(node, offset + ch.length);\n      const rect = range.getBoundingClientRect();\n      const inlineAdvance = vertical ? rect.height : rect.width;\n      if (rect.width > 0 && rect.height > 0 && !(inlineAdvance === 0 && /^\\s+$/u.test(ch))) {\n        chars.push({\n          node,\n          owner,\n          ch,\n          left: rect.left,\n          right: rect.right,\n          top: rect.top,\n          bottom: rect.bottom\n        });\n      }\n      offset += ch.length;\n    }\n  }\n  return chars;\n};\nvar groupLogicalLines = (chars, writingMode) => {\n  const vertical = VERTICAL_WRITING_RE.test(writingMode);\n  const groups = [];\n  for (const char of chars) {\n    const offset = vertical ? char.left : char.top;\n    let line = groups.find((candidate) => Math.abs(candidate.blockOffset - offset) <= 1);\n    if (line == null) {\n      line = { blockOffset: offset, chars: [] };\n      groups.push(line);\n    }\n    line.chars.push(char);\n  }\n  groups.sort((a, b) => a.blockOffset - b.blockOffset);\n  if (writingMode === \"vertical-rl\" || writingMode === \"sideways-rl\") groups.reverse();\n  return groups;\n};\nvar behaviorallyClampsInClone = (el, cs, writingMode) => {\n  const parent = el.parentNode;\n  if (parent == null) return false;\n  const clone = el.cloneNode(true);\n  clone.setAttribute(\"aria-hidden\", \"true\");\n  clone.inert = true;\n  clone.style.setProperty(\"position\", \"fixed\", \"important\");\n  clone.style.setProperty(\"left\", \"-100000px\", \"important\");\n  clone.style.setProperty(\"top\", \"0\", \"important\");\n  clone.style.setProperty(\"visibility\", \"hidden\", \"important\");\n  clone.style.setProperty(\"pointer-events\", \"none\", \"important\");\n  clone.style.setProperty(\"content-visibility\", \"visible\", \"important\");\n  clone.style.setProperty(\"contain\", \"none\", \"important\");\n  if (VERTICAL_WRITING_RE.test(writingMode)) {\n    clone.style.setProperty(\"height\", cs.height, \"important\");\n    clone.style.setProperty(\"width\", \"auto\", \"important\");\n    clone.style.setProperty(\"min-width\", \"0\", \"important\");\n    clone.style.setProperty(\"max-width\", \"none\", \"important\");\n  } else {\n    clone.style.setProperty(\"width\", cs.width, \"important\");\n    clone.style.setProperty(\"height\", \"auto\", \"important\");\n    clone.style.setProperty(\"min-height\", \"0\", \"important\");\n    clone.style.setProperty(\"max-height\", \"none\", \"important\");\n  }\n  clone.style.setProperty(\"overflow\", \"visible\", \"important\");\n  parent.insertBefore(clone, el.nextSibling);\n  try {\n    return VERTICAL_WRITING_RE.test(writingMode) ? clone.scrollWidth > clone.clientWidth + 0.5 : clone.scrollHeight > clone.clientHeight + 0.5;\n  } finally {\n    clone.remove();\n  }\n};\nvar firstFamily = (familyList) => {\n  const match = /^\\s*(?:\"([^\"]+)\"|'([^']+)'|([^,]+))/.exec(familyList || \"\");\n  return (match?.[1] || match?.[2] || match?.[3] || familyList || \"sans-serif\").trim();\n};\nvar primaryFontHasEllipsis = (doc, cs) => {\n  const primary = firstFamily(cs.fontFamily).toLowerCase();\n  let sawMatchingFace = false;\n  for (const face of doc.fonts) {\n    if ((face.family || \"\").replace(/^['\"]|['\"]$/g, \"\").toLowerCase() !== primary) continue;\n    sawMatchingFace = true;\n    const range = face.unicodeRange || \"U+0-10FFFF\";\n    const covers = range.split(\",\").some((part) => {\n      const match = /U\\+([0-9a-f?]+)(?:-([0-9a-f]+))?/i.exec(part.trim());\n      if (match == null) return false;\n      if (match[1].includes(\"?\")) {\n        const lo2 = Number.parseInt(match[1].replace(/\\?/g, \"0\"), 16);\n        const hi2 = Number.parseInt(match[1].replace(/\\?/g, \"f\"), 16);\n        return 8230 >= lo2 && 8230 <= hi2;\n      }\n      const lo = Number.parseInt(match[1], 16);\n      const hi = match[2] == null ? lo : Number.parseInt(match[2], 16);\n      return 8230 >= lo && 8230 <= hi;\n    });\n    if (covers) return true;\n  }\n  return !sawMatchingFace;\n};\nvar measureMarker = (doc, cs, text, writingMode, scale) => {\n  const probe = doc.createElement(\"span\");\n  probe.setAttribute(\"aria-hidden\", \"true\");\n  probe.textContent = text;\n  probe.style.cssText = \"position:fixed;left:-100000px;top:0;display:inline-block;visibility:hidden;white-space:pre;margin:0;padding:0;border:0;\";\n  probe.style.fontFamily = cs.fontFamily;\n  probe.style.fontSize = cs.fontSize;\n  probe.style.fontWeight = cs.fontWeight;\n  probe.style.fontStyle = cs.fontStyle;\n  probe.style.fontStretch = cs.fontStretch;\n  probe.style.fontKerning = cs.fontKerning;\n  probe.style.fontFeatureSettings = cs.fontFeatureSettings;\n  probe.style.fontVariationSettings = cs.fontVariationSettings;\n  probe.style.fontVariant = cs.fontVariant;\n  probe.style.letterSpacing = cs.letterSpacing;\n  probe.style.lineHeight = cs.lineHeight;\n  probe.style.direction = cs.direction;\n  probe.style.writingMode = writingMode;\n  probe.style.textOrientation = cs.textOrientation;\n  doc.body.appendChild(probe);\n  try {\n    const rect = probe.getBoundingClientRect();\n    return {\n      inlineAdvance: (VERTICAL_WRITING_RE.test(writingMode) ? rect.height : rect.width) * scale,\n      width: rect.width * scale,\n      height: rect.height * scale\n    };\n  } finally {\n    probe.remove();\n  }\n};\nvar createLineClampHandler = ({ vp, measureFontMetrics, normColor, effectiveZoomFor }) => {\n  const contexts = /* @__PURE__ */ new WeakMap();\n  let probeSequence = 0;\n  const analyzeRoot = (el, cs) => {\n    if (contexts.has(el)) return contexts.get(el);\n    const parsed = parseBlinkLineClampCount(cs.webkitLineClamp || \"\");\n    if (parsed == null || cs.webkitBoxOrient !== \"vertical\" || cs.display !== \"flow-root\") {\n      contexts.set(el, null);\n      return null;\n    }\n    const writingMode = cs.writingMode || \"horizontal-tb\";\n    const vertical = VERTICAL_WRITING_RE.test(writingMode);\n    const chars = collectTextCharacters(el, vertical);\n    const lines = groupLogicalLines(chars, writingMode);\n    if (lines.length <= parsed) {\n      contexts.set(el, null);\n      return null;\n    }\n    const activation = blinkLineClampActivation({\n      webkitLineClamp: cs.webkitLineClamp,\n      webkitBoxOrient: cs.webkitBoxOrient,\n      computedDisplay: cs.display,\n      behaviorallyClamps: behaviorallyClampsInClone(el, cs, writingMode)\n    });\n    if (activation == null) {\n      contexts.set(el, null);\n      return null;\n    }\n    const clampLine = lines[activation.clampCount - 1];\n    if (clampLine == null || clampLine.chars.length === 0) {\n      contexts.set(el, null);\n      return null;\n    }\n    const direction = cs.direction === \"rtl\" ? \"rtl\" : \"ltr\";\n    const scale = effectiveZoomFor?.(el) || 1;\n    const markerText = blinkLineClampEllipsisText(primaryFontHasEllipsis(el.ownerDocument, cs));\n    const measured = measureMarker(el.ownerDocument, cs, markerText, writingMode, scale);\n    const inlineStarts = clampLine.chars.map((char) => vertical ? char.top : char.left);\n    const inlineEnds = clampLine.chars.map((char) => vertical ? char.bottom : char.right);\n    const adjacentInlineStart = Math.min(...inlineStarts);\n    const adjacentInlineEnd = Math.max(...inlineEnds);\n    const inlineStart = blinkLineClampInlineStart({\n      direction,\n      adjacentInlineStart,\n      adjacentInlineEnd,\n      ellipsisAdvance: measured.inlineAdvance\n    });\n    const adjacent = direction === \"rtl\" ? clampLine.chars.reduce((best, char) => (vertical ? char.top : char.left) < (vertical ? best.top : best.left) ? char : best) : clampLine.chars.reduce((best, char) => (vertical ? char.bottom : char.right) > (vertical ? best.bottom : best.right) ? char : best);\n    const adjacentStyle = getComputedStyle(adjacent.owner);\n    const adjacentAscent = measureFontMetrics(adjacentStyle).ascent * (effectiveZoomFor?.(adjacent.owner) || 1);\n    const rootMetrics = measureFontMetrics(cs);\n    const rootAscent = rootMetrics.ascent * scale;\n    const baseline = vertical ? adjacent.left + adjacentAscent : adjacent.top + adjacentAscent;\n    const lineLeft = Math.min(...clampLine.chars.map((char) => char.left));\n    const lineRight = Math.max(...clampLine.chars.map((char) => char.right));\n    const lineTop = Math.min(...clampLine.chars.map((char) => char.top));\n    const lineBottom = Math.max(...clampLine.chars.map((char) => char.bottom));\n    const marker = vertical ? {\n      text: markerText,\n      x: lineLeft - vp.x,\n      y: inlineStart - vp.y,\n      width: lineRight - lineLeft,\n      height: measured.inlineAdvance,\n      yOffsets: [inlineStart - vp.y],\n      verticalWritingMode: writingMode,\n      verticalOrientations: [\"rotated\"],\n      verticalAdvances: [measured.inlineAdvance],\n      verticalNaturalWidths: [measured.width],\n      fontAscent: rootMetrics.ascent\n    } : {\n      text: markerText,\n      x: inlineStart - vp.x,\n      y: baseline - rootAscent - vp.y,\n      width: measured.inlineAdvance,\n      height: lineBottom - lineTop,\n      xOffsets: [inlineStart - vp.x],\n      fontAscent: rootMetrics.ascent\n    };\n    Object.assign(marker, {\n      generatedLineClampEllipsis: true,\n      shapedWidth: measured.inlineAdvance,\n      baseline: baseline - (vertical ? vp.x : vp.y),\n      inlineOffset: inlineStart - (vertical ? vp.y : vp.x),\n      color: normColor(cs.color),\n      fontFamily: cs.fontFamily,\n      fontSize: Number.parseFloat(cs.fontSize) || void 0,\n      fontWeight: cs.fontWeight,\n      fontStyle: cs.fontStyle,\n      fontVariant: cs.fontVariant\n    });\n    const probeId = `dm2417-${probeSequence++}`;\n    el.setAttribute(\"data-domotion-line-clamp-probe\", probeId);\n    marker.lineClampProbeId = probeId;\n    const context = { root: el, clampCount: activation.clampCount, writingMode, lines, marker };\n    contexts.set(el, context);\n    return context;\n  };\n  const nearestContext = (el) => {\n    for (let cursor = el; cursor != null; cursor = cursor.parentElement) {\n      const context = contexts.has(cursor) ? contexts.get(cursor) : analyzeRoot(cursor, getComputedStyle(cursor));\n      if (context != null) return context;\n    }\n    return null;\n  };\n  const segmentLineIndex = (segment, context) => {\n    const vertical = VERTICAL_WRITING_RE.test(context.writingMode);\n    const offset = vertical ? segment.x + vp.x : segment.y + vp.y;\n    let bestIndex = -1;\n    let bestDistance = Infinity;\n    for (let index = 0; index < context.lines.length; index++) {\n      const distance = Math.abs(context.lines[index].blockOffset - offset);\n      if (distance < bestDistance) {\n        bestDistance = distance;\n        bestIndex = index;\n      }\n    }\n    return bestDistance <= 1.5 ? bestIndex : -1;\n  };\n  const finalizeLineClampText = (el, cs, result) => {\n    analyzeRoot(el, cs);\n    const context = nearestContext(el);\n    if (context == null) return result;\n    const sourceSegments = result.textSegments || [];\n    const retained = sourceSegments.filter((segment) => {\n      if (segment.generatedLineClampEllipsis) return true;\n      const index = segmentLineIndex(segment, context);\n      return index < 0 || blinkLineClampLineIsVisible(index, context.clampCount);\n    });\n    if (el === context.root && blinkShouldEmitLineClampEllipsis({\n      active: true,\n      clampCount: context.clampCount,\n      totalLineCount: context.lines.length\n    })) retained.push(context.marker);\n    return {\n      ...result,\n      textSegments: retained,\n      lineClampTextFragments: true\n    };\n  };\n  return { finalizeLineClampText };\n};\n\n// src/capture/script/cross-origin.ts\nfunction parseCrossOriginAllowlist(value) {\n  if (value == null) return null;\n  const trimmed = value.trim();\n  if (trimmed === \"\") return null;\n  if (trimmed === \"*\") return \"*\";\n  const entries = [];\n  for (const raw of trimmed.split(\",\")) {\n    const part = raw.trim();\n    if (part === \"\") continue;\n    if (part === \"*\") return \"*\";\n    const colon = part.lastIndexOf(\":\");\n    if (colon > 0 && /^[0-9]+$/.test(part.slice(colon + 1))) {\n      entries.push({ host: part.slice(0, colon).toLowerCase(), port: part.slice(colon + 1) });\n    } else {\n      entries.push({ host: part.toLowerCase(), port: null });\n    }\n  }\n  return entries.length > 0 ? entries : null;\n}\nfunction frameHostAllowed(frameUrl, allow) {\n  if (allow == null) return false;\n  if (allow === \"*\") return true;\n  let host;\n  let port;\n  try {\n    const u = new URL(frameUrl);\n    host = u.hostname.toLowerCase();\n    port = u.port;\n    if (port === \"\") {\n      if (u.protocol === \"https:\") port = \"443\";\n      else if (u.protocol === \"http:\") port = \"80\";\n    }\n  } catch {\n    return false;\n  }\n  for (const entry of allow) {\n    if (entry.host !== host) continue;\n    if (entry.port == null) return true;\n    if (entry.port === port) return true;\n  }\n  return false;\n}\n\n// src/capture/projective-owner.ts\nfunction isAncestor(nodes, ancestor, descendant) {\n  let cursor = descendant;\n  while (cursor != null) {\n    if (cursor === ancestor) return true;\n    cursor = nodes[cursor]?.parent ?? null;\n  }\n  return false;\n}\nfunction selectProjectiveRasterOwnerIndexes(nodes) {\n  const candidates = /* @__PURE__ */ new Set();\n  for (let index = 0; index < nodes.length; index++) {\n    const node = nodes[index];\n    if (node == null || !node.nonAffine) continue;\n    let owner = index;\n    let parent = node.parent;\n    while (parent != null && nodes[parent]?.influenced === true) {\n      owner = parent;\n      parent = nodes[parent]?.parent ?? null;\n    }\n    const inlineSvgRoot = node.inlineSvgRoot;\n    if (inlineSvgRoot != null && isAncestor(nodes, inlineSvgRoot, owner)) {\n      owner = inlineSvgRoot;\n    }\n    candidates.add(owner);\n  }\n  return [...candidates].filter((candidate) => ![...candidates].some(\n    (other) => other !== candidate && isAncestor(nodes, other, candidate)\n  )).sort((a, b) => a - b);\n}\n\n// src/capture/effective-appearance.ts\nvar BACKGROUND_LONGHANDS = [\n  \"background-attachment\",\n  \"background-clip\",\n  \"background-color\",\n  \"background-image\",\n  \"background-origin\",\n  \"background-position-x\",\n  \"background-position-y\",\n  \"background-repeat\",\n  \"background-size\"\n];\nvar PHYSICAL_BORDER_LONGHANDS = [\n  \"border-top-color\",\n  \"border-right-color\",\n  \"border-bottom-color\",\n  \"border-left-color\",\n  \"border-top-style\",\n  \"border-right-style\",\n  \"border-bottom-style\",\n  \"border-left-style\",\n  \"border-top-width\",\n  \"border-right-width\",\n  \"border-bottom-width\",\n  \"border-left-width\",\n  \"border-top-left-radius\",\n  \"border-top-right-radius\",\n  \"border-bottom-right-radius\",\n  \"border-bottom-left-radius\",\n  \"border-image-source\",\n  \"border-image-slice\",\n  \"border-image-width\",\n  \"border-image-outset\",\n  \"border-image-repeat\"\n];\nvar BACKGROUND_SET = new Set(BACKGROUND_LONGHANDS);\nvar BORDER_SET = new Set(PHYSICAL_BORDER_LONGHANDS);\nfunction normalizedAppearance(value) {\n  const appearance = (value ?? \"auto\").trim().toLowerCase();\n  return appearance === \"\" ? \"auto\" : appearance;\n}\nfunction autoAppearanceForControl(control) {\n  const tag = control.tag.toLowerCase();\n  if (tag === \"button\") return \"button\";\n  if (tag === \"progress\") return \"progress-bar\";\n  if (tag === \"meter\") return \"meter\";\n  if (tag === \"textarea\") return \"textarea\";\n  if (tag === \"select\") {\n    const size = Number.isFinite(control.selectSize) ? Math.max(0, control.selectSize ?? 0) : 0;\n    const usesMenuList = control.multiple ? Boolean(control.selectHasSizeAttribute) && size === 1 : size <= 1;\n    return usesMenuList ? \"menulist\" : \"listbox\";\n  }\n  if (tag !== \"input\") return \"none\";\n  switch ((control.type ?? \"text\").toLowerCase()) {\n    case \"button\":\n    case \"reset\":\n    case \"submit\":\n      return \"push-button\";\n    case \"color\":\n      return \"square-button\";\n    case \"checkbox\":\n      return \"checkbox\";\n    case \"radio\":\n      return \"radio\";\n    case \"range\":\n      return \"slider-horizontal\";\n    case \"search\":\n      return \"searchfield\";\n    case \"file\":\n    case \"hidden\":\n    case \"image\":\n      return \"none\";\n    default:\n      return \"textfield\";\n  }\n}\nfunction appearanceNeedsAuthorStyleFacts(appearance) {\n  return (/* @__PURE__ */ new Set([\n    \"button\",\n    \"push-button\",\n    \"square-button\",\n    \"progress-bar\",\n    \"meter\",\n    \"menulist\",\n    \"searchfield\",\n    \"textarea\",\n    \"textfield\"\n  ])).has(appearance);\n}\nfunction elementTypeAdjustedAppearance(specified, control) {\n  const auto = autoAppearanceForControl(control);\n  if (specified === auto) return specified;\n  switch (specified) {\n    case \"none\":\n    case \"base\":\n    case \"base-select\":\n      return specified;\n    case \"auto\":\n    case \"checkbox\":\n    case \"radio\":\n    case \"push-button\":\n    case \"square-button\":\n    case \"inner-spin-button\":\n    case \"listbox\":\n    case \"menulist\":\n    case \"meter\":\n    case \"progress-bar\":\n    case \"slider-horizontal\":\n    case \"slider-thumb-horizontal\":\n    case \"searchfield\":\n    case \"searchfield-cancel-button\":\n    case \"textarea\":\n      return auto;\n    case \"button\":\n      return auto === \"push-button\" || auto === \"square-button\" ? specified : auto;\n    case \"menulist-button\":\n      return auto === \"menulist\" ? specified : auto;\n    case \"slider-vertical\":\n      return auto === \"slider-horizontal\" ? specified : auto;\n    case \"slider-thumb-vertical\":\n      return auto === \"slider-thumb-horizontal\" ? specified : auto;\n    case \"textfield\":\n      return control.tag.toLowerCase() === \"input\" && (control.type ?? \"text\").toLowerCase() === \"search\" ? specified : auto;\n    default:\n      return specified;\n  }\n}\nfunction effectiveAppearanceForControl(specifiedAppearance, control, facts, hasResolvedBoxShadow) {\n  const specified = normalizedAppearance(specifiedAppearance);\n  const appearance = elementTypeAdjustedAppearance(specified, control);\n  if (appearance === \"none\" || appearance === \"base\" || appearance === \"base-select\") {\n    return appearance;\n  }\n  if (!appearanceNeedsAuthorStyleFacts(appearance)) return appearance;\n  if (facts == null || !facts.available) return null;\n  const authorBox = facts.hasAuthorBackground || facts.hasAuthorBorder;\n  switch (appearance) {\n    case \"button\":\n    case \"push-button\":\n    case \"square-button\":\n    case \"progress-bar\":\n    case \"meter\":\n      return authorBox ? \"none\" : appearance;\n    case \"menulist\":\n      return authorBox || hasResolvedBoxShadow ? \"menulist-button\" : appearance;\n    case \"searchfield\":\n    case \"textarea\":\n    case \"textfield\":\n      return authorBox || hasResolvedBoxShadow ? \"none\" : appearance;\n    default:\n      return appearance;\n  }\n}\nfunction isWholeHostNativeAppearance(appearance) {\n  return (/* @__PURE__ */ new Set([\n    \"button\",\n    \"push-button\",\n    \"square-button\",\n    \"progress-bar\",\n    \"meter\",\n    \"menulist\",\n    \"searchfield\",\n    \"textarea\",\n    \"textfield\",\n    \"checkbox\",\n    \"radio\",\n    \"slider-horizontal\",\n    \"slider-vertical\"\n  ])).has(appearance);\n}\n\n// src/capture/native-control-decoration.ts\nvar TEMPORAL_INPUT_TYPES = /* @__PURE__ */ new Set([\n  \"date\",\n  \"datetime-local\",\n  \"month\",\n  \"time\",\n  \"week\"\n]);\nfunction nativeControlDecorationKinds(control, effectiveAppearance, fileSelectorButtonAppearance) {\n  const tag = control.tag.toLowerCase();\n  const type = (control.type ?? \"text\").toLowerCase();\n  if (tag === \"input\" && type === \"file\") {\n    if (fileSelectorButtonAppearance === \"none\" || fileSelectorButtonAppearance === \"base\" || fileSelectorButtonAppearance === \"base-select\") return [];\n    return [\"file-selector-button\"];\n  }\n  if (effectiveAppearance == null || isWholeHostNativeAppearance(effectiveAppearance)) return [];\n  if (effectiveAppearance === \"base\" || effectiveAppearance === \"base-select\") return [];\n  if (tag === \"select\") {\n    return effectiveAppearance === \"menulist-button\" ? [\"menulist-button-arrow\"] : [];\n  }\n  if (tag !== \"input\") return [];\n  if (type === \"number\") return [\"inner-spin-button\"];\n  if (type === \"search\") return [\"search-cancel-button\"];\n  if (TEMPORAL_INPUT_TYPES.has(type)) {\n    return [\"calendar-picker-indicator\"];\n  }\n  return [];\n}\n\n// src/capture/script/index.ts\nvar captureDocumentTree = (args, colorNorm) => {\n  const sel = args.sel;\n  const vp = args.vp;\n  const _crossOriginAllow = parseCrossOriginAllowlist(args.cof);\n  const _svgReferenceScopes = /* @__PURE__ */ new WeakMap();\n  let _nextSvgReferenceScope = 0;\n  function _svgReferenceScope(el) {\n    var root2 = el.getRootNode ? el.getRootNode() : el.ownerDocument;\n    var existing = _svgReferenceScopes.get(root2);\n    if (existing != null) return existing;\n    var allocated = _nextSvgReferenceScope++;\n    _svgReferenceScopes.set(root2, allocated);\n    return allocated;\n  }\n  let _backdropRasterSeq = 0;\n  function _textPaintRegistryFor(el) {\n    if (typeof args.tgk !== \"string\" || args.tgk === \"\") return void 0;\n    var view = el.ownerDocument != null ? el.ownerDocument.defaultView : void 0;\n    return view != null ? view[args.tgk] : void 0;\n  }\n  function _textPaintElementIndexFor(el) {\n    var registry = _textPaintRegistryFor(el);\n    return registry != null && registry.indexByElement != null ? registry.indexByElement.get(el) : void 0;\n  }\n  function _textPaintFactFor(el) {\n    var registry = _textPaintRegistryFor(el);\n    var index = _textPaintElementIndexFor(el);\n    return registry != null && index != null && registry.factsByElement != null ? registry.factsByElement[index] : void 0;\n  }\n  function _textPaintSourceKeyFor(el) {\n    var registry = _textPaintRegistryFor(el);\n    var index = _textPaintElementIndexFor(el);\n    return registry != null && index != null ? registry.token + \":\" + index : void 0;\n  }\n  function _pseudoFragmentFactsFor(el) {\n    if (typeof args.pgk !== \"string\" || args.pgk === \"\") return void 0;\n    var view = el.ownerDocument != null ? el.ownerDocument.defaultView : void 0;\n    var registry = view != null ? view[args.pgk] : void 0;\n    var index = registry != null && registry.indexByElement != null ? registry.indexByElement.get(el) : void 0;\n    return registry != null && index != null && registry.factsByElement != null ? registry.factsByElement[index] : void 0;\n  }\n  const { normColor, normGradientColors } = colorNorm;\n  const { rasterCandidates, textNeedsRaster } = createEmojiDetect();\n  const { markGetsDottedCircle } = createDottedCircleDetect();\n  const { measureFontMetrics: _measureFontMetrics, substituteAliasedFamilies: _substituteAliasedFamilies } = createFontMetrics();\n  const { resolvePlaceholderShownBg: _resolvePlaceholderShownBg } = createPlaceholderShown();\n  const { familyIsUADefault: _familyIsUADefault } = createFontFamilyDefault();\n  const _fontFeatureValuesByDocument = /* @__PURE__ */ new WeakMap();\n  const _fontFeatureValuesFor = (doc) => {\n    let tables = _fontFeatureValuesByDocument.get(doc);\n    if (tables == null) {\n      tables = collectFontFeatureValues(doc);\n      _fontFeatureValuesByDocument.set(doc, tables);\n    }\n    return tables;\n  };\n  const { resolvePseudo: _resolvePseudo, resolveCornerRadius: _resolveCornerRadius } = createPseudoRules(args.ps, args.pk);\n  const { warn, shortSelector, warnings: _warnings } = createWarnings();\n  const _counterStyles = {};\n  const _runCounterStylePrewalk = createCounterStylePrewalk({ counterStyles: _counterStyles });\n  const { resolveCounterStyle, resolveCounterValue, isCustomCounterStyle } = createCounterStyleResolver({ counterStyles: _counterStyles });\n  const { captureListsCounters } = createListsCountersHandler({ normColor, resolveCounterStyle, isCustomCounterStyle, measureFontMetrics: _measureFontMetrics });\n  const { handleReplacedElement } = createReplacedElementsHandler({ vp });\n  const { discoverMasks, computeMaskIntrinsic, discoverClipPaths, discoverFilters, maskDefs: _maskDefs, maskRasters: _maskRasters, clipPathDefs: _clipPathDefs, filterDefs: _filterDefs } = createMasksClipsHandler({ vp, warn });\n  const { captureFormControls } = createFormControlsHandler({ normColor, resolvePseudo: _resolvePseudo });\n  const { wrapWithFrozenTransform, threadFrozenTransform } = createTransformsHandler();\n  const { captureBordersBackgrounds, isTableCellHiddenByEmptyCells } = createBordersBackgroundsHandler({\n    normColor,\n    normGradientColors,\n    resolvePlaceholderShownBg: _resolvePlaceholderShownBg,\n    resolveCornerRadius: _resolveCornerRadius,\n    effectiveZoomFor: (el) => _effectiveZoomFor(el),\n    warn,\n    shortSelector,\n    vp\n  });\n  const { captureBackgroundAttachment } = createBackgroundAttachmentHandler({\n    vp,\n    transformRelatedBoxFor: (el) => _transformRelatedBox.get(el),\n    effectiveZoomFor: (el) => _effectiveZoomFor(el),\n    scrollbarPropertyKey: args.sk\n  });\n  const { capturePseudoContent } = createPseudoContentHandler({\n    vp,\n    normColor,\n    measureFontMetrics: _measureFontMetrics,\n    textNeedsRaster,\n    resolveCounterValue,\n    isCustomCounterStyle,\n    composeEffectiveTransform,\n    effectiveZoomFor: (el) => _effectiveZoomFor(el),\n    physicalComputedCssPixelTerms: physicalComputedTileSize\n  });\n  const { captureInputValue } = createInputValueHandler({ vp, normColor, measureFontMetrics: _measureFontMetrics });\n  const { finalizeLineClampText } = createLineClampHandler({\n    vp,\n    measureFontMetrics: _measureFontMetrics,\n    normColor,\n    effectiveZoomFor: (el) => _effectiveZoomFor(el)\n  });\n  const { captureTextSegments } = createTextSegmentsHandler({\n    vp,\n    measureFontMetrics: _measureFontMetrics,\n    rasterCandidates,\n    normColor,\n    markGetsDottedCircle,\n    finalizeLineClampText\n  });\n  const { injectPseudoSegments } = createPseudoInjectHandler();\n  const { captureResizeHandle } = createResizeHandleHandler({\n    resolvePseudo: _resolvePseudo,\n    normColor,\n    effectiveZoomFor: (el) => _effectiveZoomFor(el),\n    themeThickness: args.rt,\n    scaleFromDIP: args.rs,\n    vp\n  });\n  const capture = (el) => {\n    const styleWindow = el.ownerDocument?.defaultView ?? window;\n    const cs = styleWindow.getComputedStyle(el);\n    return wrapWithFrozenTransform(el, cs, captureInner);\n  };\n  const captureInner = (el, cs, frozenTransform, frozenTransformOrigin) => {\n    const rect = el.getBoundingClientRect();\n    const _textPaintFact = _textPaintFactFor(el);\n    const _pseudoFragmentFacts = _pseudoFragmentFactsFor(el);\n    let projectiveTransform;\n    let projectiveHidden;\n    let transformSubtreeRaster;\n    const _quad = _projectedQuads.get(el);\n    if (_quad != null && rect.width > 0 && rect.height > 0) {\n      const _abs = _homographyForRect(rect, _quad);\n      if (_abs != null) {\n        const _parentAbs = el.parentElement != null ? _projectiveAbsH.get(el.parentElement) : void 0;\n        const _parentInv = _parentAbs != null ? _invertH(_parentAbs) : null;\n        projectiveTransform = _parentInv != null ? _mulH(_parentInv, _abs) : _abs;\n        _projectiveAbsH.set(el, _abs);\n        const _area = (_quad[1].x - _quad[0].x) * (_quad[3].y - _quad[0].y) - (_quad[1].y - _quad[0].y) * (_quad[3].x - _quad[0].x);\n        projectiveHidden = cs.backfaceVisibility === \"hidden\" && _area < 0;\n      }\n    }\n    const _makeTransformSubtreeRaster = () => {\n      let _left = rect.left, _top = rect.top, _right = rect.right, _bottom = rect.bottom;\n      const _subs = el.getElementsByTagName(\"*\");\n      for (let _ri = 0; _ri < _subs.length; _ri++) {\n        const _rr = _subs[_ri].getBoundingClientRect();\n        if (_rr.width <= 0 || _rr.height <= 0) continue;\n        _left = Math.min(_left, _rr.left);\n        _top = Math.min(_top, _rr.top);\n        _right = Math.max(_right, _rr.right);\n        _bottom = Math.max(_bottom, _rr.bottom);\n      }\n      const _rx = Math.max(vp.x, _left), _ry = Math.max(vp.y, _top);\n      const _rright = Math.min(vp.x + vp.width, _right), _rbottom = Math.min(vp.y + vp.height, _bottom);\n      if (_rright > _rx && _rbottom > _ry) {\n        return {\n          x: _rx - vp.x,\n          y: _ry - vp.y,\n          width: _rright - _rx,\n          height: _rbottom - _ry,\n          sourceNodeIndex: _projectiveNodeIndex.get(el)\n        };\n      }\n      return { x: 0, y: 0, width: 0, height: 0, sourceNodeIndex: _projectiveNodeIndex.get(el) };\n    };\n    if (_nonAffineProjectiveRoots.has(el)) {\n      transformSubtreeRaster = _makeTransformSubtreeRaster();\n    }\n    if (_textPaintFact != null && _textPaintFact.surfaceReason != null && transformSubtreeRaster == null) {\n      transformSubtreeRaster = _makeTransformSubtreeRaster();\n      warn(shortSelector(el), \"<transform>\", \"Chromium text-fragment geometry unavailable; retained one outer raster surface: \" + _textPaintFact.surfaceReason);\n    }\n    const outsideViewport = isOutsideCaptureViewport(rect, vp);\n    if (outsideViewport && !_fixedAncestors.has(el) && !_transformInfluenced.has(el) && !_animInfluenced.has(el)) return null;\n    const _earlyTag = el.tagName.toLowerCase();\n    const bordersOnlyCell = (_earlyTag === \"td\" || _earlyTag === \"th\") && (cs.visibility === \"hidden\" || cs.visibility === \"collapse\") && cs.borderCollapse === \"collapse\";\n    if (cs.display === \"none\") return null;\n    if ((cs.visibility === \"hidden\" || cs.visibility === \"collapse\") && !bordersOnlyCell) return null;\n    const _contentVisHidden = cs.contentVisibility === \"hidden\";\n    const _clip = cs.clip || \"\";\n    if (_clip !== \"auto\" && _clip !== \"\" && _clip !== \"normal\") {\n      const _cm = _clip.match(/rect\\(\\s*([^,\\s]+)[ ,]+([^,\\s]+)[ ,]+([^,\\s]+)[ ,]+([^)\\s]+)\\s*\\)/);\n      if (_cm != null && parseFloat(_cm[1]) === 0 && parseFloat(_cm[2]) === 0 && parseFloat(_cm[3]) === 0 && parseFloat(_cm[4]) === 0) {\n        return null;\n      }\n    }\n    const _cp = cs.clipPath || \"\";\n    if (_cp.indexOf(\"inset(\") === 0) {\n      const _ipm = _cp.match(/inset\\(\\s*([0-9.]+)\\s*%/);\n      if (_ipm != null && parseFloat(_ipm[1]) >= 50) return null;\n    }\n    if (rect.width <= 1 && rect.height <= 1 && (cs.overflow === \"hidden\" || cs.overflowX === \"hidden\" || cs.overflowY === \"hidden\") && (cs.position === \"absolute\" || cs.position === \"fixed\")) {\n      return null;\n    }\n    const zeroSized = rect.width === 0 || rect.height === 0;\n    const _hasAnim = el.dataset != null && el.dataset.domotionAnim != null && el.dataset.domotionAnim !== \"\";\n    const _inkTextZeroWidth = rect.width === 0 && rect.height > 0 && el.textContent != null && el.textContent.trim().length > 0;\n    const _keepImageFallbackState = el.tagName != null && el.tagName.toLowerCase() === \"img\";\n    if (zeroSized && el.children.length === 0 && !_hasAnim && !_inkTextZeroWidth && !_keepImageFallbackState) return null;\n    const tag = el.tagName.toLowerCase();\n    const sel2 = shortSelector(el);\n    const _nativeControlTag = tag === \"input\" || tag === \"select\" || tag === \"textarea\" || tag === \"button\" || tag === \"progress\" || tag === \"meter\";\n    const _specifiedAppearance = cs.webkitAppearance || cs.appearance || \"auto\";\n    const _autoAppearanceDescriptor = {\n      tag,\n      type: tag === \"input\" ? el.type || \"text\" : void 0,\n      multiple: tag === \"select\" ? !!el.multiple : void 0,\n      selectSize: tag === \"select\" ? +el.size : void 0,\n      selectHasSizeAttribute: tag === \"select\" ? el.hasAttribute(\"size\") : void 0\n    };\n    const _appearanceFacts = typeof args.eak === \"string\" && args.eak !== \"\" ? el[args.eak] : void 0;\n    const _effectiveAppearance = _nativeControlTag ? effectiveAppearanceForControl(\n      _specifiedAppearance,\n      _autoAppearanceDescriptor,\n      _appearanceFacts,\n      cs.boxShadow != null && cs.boxShadow !== \"\" && cs.boxShadow !== \"none\"\n    ) : \"none\";\n    const _nativeDecorationRefs = typeof args.ndk === \"string\" && args.ndk !== \"\" && Array.isArray(el[args.ndk]) ? el[args.ndk] : [];\n    let _fileSelectorButtonAppearance;\n    for (let _fri = 0; _fri < _nativeDecorationRefs.length; _fri++) {\n      const _fileRef = _nativeDecorationRefs[_fri];\n      if (_fileRef == null || _fileRef.kind !== \"file-selector-button\") continue;\n      _fileSelectorButtonAppearance = _fileRef.ownership == null ? null : _fileRef.ownership.effectiveAppearance;\n      break;\n    }\n    const _nativeDecorationKinds = _nativeControlTag ? nativeControlDecorationKinds(\n      _autoAppearanceDescriptor,\n      _effectiveAppearance,\n      tag === \"input\" && el.type === \"file\" ? _fileSelectorButtonAppearance : void 0\n    ) : [];\n    const _nativeDecorationParts = [];\n    const _missingNativeDecorationKinds = [];\n    let _nativeDecorationUnavailableReason;\n    for (let _dki = 0; _dki < _nativeDecorationKinds.length; _dki++) {\n      const _kind = _nativeDecorationKinds[_dki];\n      if (_kind === \"menulist-button-arrow\") continue;\n      let _found = false;\n      for (let _dri = 0; _dri < _nativeDecorationRefs.length; _dri++) {\n        const _entry = _nativeDecorationRefs[_dri];\n        if (_entry == null || _entry.kind !== _kind || !(_entry.node instanceof Element)) continue;\n        _found = true;\n        if (_kind === \"file-selector-button\" && (_entry.ownership == null || _entry.ownership.effectiveAppearance == null)) {\n          _nativeDecorationUnavailableReason = _entry.ownership && _entry.ownership.reason ? _entry.ownership.reason : \"file-selector child EffectiveAppearance unavailable\";\n        }\n        const _part = _entry.node;\n        const _partStyle = getComputedStyle(_part);\n        const _partRect = _part.getBoundingClientRect();\n        const _partOpacity = parseFloat(_partStyle.opacity);\n        if (_part.isConnected && _partStyle.display !== \"none\" && _partStyle.visibility === \"visible\" && (!isFinite(_partOpacity) || _partOpacity > 0) && _partRect.width > 0 && _partRect.height > 0) {\n          _nativeDecorationParts.push({\n            kind: _kind,\n            index: _dri,\n            x: _partRect.left,\n            y: _partRect.top,\n            width: _partRect.width,\n            height: _partRect.height\n          });\n        }\n      }\n      if (!_found) _missingNativeDecorationKinds.push(_kind);\n    }\n    if (_nativeDecorationKinds.indexOf(\"file-selector-button\") >= 0) {\n      let _fileStatusFound = false;\n      for (let _dri = 0; _dri < _nativeDecorationRefs.length; _dri++) {\n        const _entry = _nativeDecorationRefs[_dri];\n        if (_entry == null || _entry.kind !== \"file-selector-status\" || !(_entry.node instanceof Element)) continue;\n        _fileStatusFound = true;\n        const _statusRect = _entry.node.getBoundingClientRect();\n        if (_entry.node.isConnected && _statusRect.width >= 0 && _statusRect.height >= 0) {\n          _nativeDecorationParts.push({\n            kind: \"file-selector-status\",\n            index: _dri,\n            x: _statusRect.left,\n            y: _statusRect.top,\n            width: _statusRect.width,\n            height: _statusRect.height\n          });\n        }\n      }\n      if (!_fileStatusFound) _missingNativeDecorationKinds.push(\"file-selector-status\");\n    }\n    if (_nativeDecorationKinds.indexOf(\"menulist-button-arrow\") >= 0) {\n      let _selectInnerFound = false;\n      for (let _dri = 0; _dri < _nativeDecorationRefs.length; _dri++) {\n        const _entry = _nativeDecorationRefs[_dri];\n        if (_entry == null || _entry.kind !== \"select-inner\" || !(_entry.node instanceof Element)) continue;\n        _selectInnerFound = true;\n        const _partRect = _entry.node.getBoundingClientRect();\n        if (_entry.node.isConnected && _partRect.width >= 0 && _partRect.height >= 0) {\n          _nativeDecorationParts.push({\n            kind: \"select-inner\",\n            index: _dri,\n            x: _partRect.left,\n            y: _partRect.top,\n            width: _partRect.width,\n            height: _partRect.height\n          });\n        }\n      }\n      if (!_selectInnerFound) _missingNativeDecorationKinds.push(\"select-inner\");\n    }\n    let _fileSelectorCapture;\n    if (tag === \"input\" && el.type === \"file\") {\n      let _buttonNode;\n      let _statusNode;\n      for (let _fri = 0; _fri < _nativeDecorationRefs.length; _fri++) {\n        const _entry = _nativeDecorationRefs[_fri];\n        if (_entry == null || !(_entry.node instanceof Element)) continue;\n        if (_entry.kind === \"file-selector-button\") _buttonNode = _entry.node;\n        else if (_entry.kind === \"file-selector-status\") _statusNode = _entry.node;\n      }\n      const _paintScale = _effectiveZoomFor(el);\n      const _buttonRect = _buttonNode && _buttonNode.getBoundingClientRect();\n      const _buttonStyle = _buttonNode && getComputedStyle(_buttonNode);\n      const _buttonMetrics = _buttonStyle && _measureFontMetrics(_buttonStyle);\n      let _buttonTextWidth = 0;\n      if (_buttonNode && _buttonStyle) {\n        try {\n          const _buttonCanvas = document.createElement(\"canvas\");\n          const _buttonCtx = _buttonCanvas.getContext(\"2d\");\n          if (_buttonCtx) {\n            _buttonCtx.font = _buttonStyle.font;\n            _buttonTextWidth = _buttonCtx.measureText(\n              _buttonNode.value || _buttonNode.getAttribute(\"value\") || \"\"\n            ).width * _paintScale;\n          }\n        } catch (_e) {\n        }\n      }\n      const _statusRect = _statusNode && _statusNode.getBoundingClientRect();\n      const _statusStyle = _statusNode && getComputedStyle(_statusNode);\n      const _statusText = _statusNode && captureTextSegments(_statusNode, _statusStyle);\n      if (_statusText && Array.isArray(_statusText.textSegments)) {\n        for (let _fsi = 0; _fsi < _statusText.textSegments.length; _fsi++) {\n          const _seg = _statusText.textSegments[_fsi];\n          if (_seg.fontAscent != null) _seg.fontAscent *= _paintScale;\n          if (_seg.fontDescent != null) _seg.fontDescent *= _paintScale;\n          if (_seg.fontSize != null) _seg.fontSize *= _paintScale;\n          if (Array.isArray(_seg.verticalNaturalWidths)) {\n            _seg.verticalNaturalWidths = _seg.verticalNaturalWidths.map((_width) => _width * _paintScale);\n          }\n        }\n      }\n      _fileSelectorCapture = {\n        fileSelectorButton: _buttonRect && _buttonStyle && _buttonMetrics ? {\n          x: _buttonRect.left - vp.x,\n          y: _buttonRect.top - vp.y,\n          width: _buttonRect.width,\n          height: _buttonRect.height,\n          text: _buttonNode.value || _buttonNode.getAttribute(\"value\") || \"\",\n          textWidth: _buttonTextWidth,\n          fontSize: (parseFloat(_buttonStyle.fontSize) || 0) * _paintScale,\n          fontFamily: _buttonStyle.fontFamily,\n          fontWeight: _buttonStyle.fontWeight,\n          fontStyle: _buttonStyle.fontStyle,\n          fontAscent: _buttonMetrics.ascent * _paintScale,\n          fontDescent: _buttonMetrics.descent * _paintScale,\n          color: normColor(_buttonStyle.color),\n          boxShadow: _buttonStyle.boxShadow,\n          borderRadius: _buttonStyle.borderRadius,\n          writingMode: _buttonStyle.writingMode,\n          textOrientation: _buttonStyle.textOrientation,\n          direction: _buttonStyle.direction\n        } : void 0,\n        fileSelectorStatus: _statusRect && _statusStyle && _statusText ? {\n          x: _statusRect.left - vp.x,\n          y: _statusRect.top - vp.y,\n          width: _statusRect.width,\n          height: _statusRect.height,\n          text: _statusText.text || _statusNode.textContent || \"\",\n          textSegments: _statusText.textSegments,\n          fontSize: (parseFloat(_statusStyle.fontSize) || 0) * _paintScale,\n          fontFamily: _statusStyle.fontFamily,\n          fontWeight: _statusStyle.fontWeight,\n          fontStyle: _statusStyle.fontStyle,\n          fontAscent: (_statusText.fontAscent || 0) * _paintScale,\n          fontDescent: (_statusText.fontDescent || 0) * _paintScale,\n          color: normColor(_statusStyle.color),\n          writingMode: _statusStyle.writingMode,\n          textOrientation: _statusStyle.textOrientation,\n          direction: _statusStyle.direction\n        } : void 0\n      };\n    }\n    if (_nativeControlTag && _effectiveAppearance == null) {\n      const _autoAppearance = _specifiedAppearance === \"auto\" ? autoAppearanceForControl(_autoAppearanceDescriptor) : _specifiedAppearance;\n      if (appearanceNeedsAuthorStyleFacts(_autoAppearance)) {\n        const _reason = _appearanceFacts && _appearanceFacts.reason ? _appearanceFacts.reason : args.ear || \"no correlated Chromium matched-style facts\";\n        warn(\n          sel2,\n          \"effective-appearance-cascade\",\n          \"author background/border origin unavailable (\" + _reason + \"); preserving a conservative Chromium host raster\"\n        );\n      }\n    }\n    if (cs.transform && cs.transform.startsWith(\"matrix3d\")) {\n      warn(sel2, \"transform-3d\", \"static 3D plane projected to vector SVG from Chromium-measured corners\");\n    }\n    if (cs.backdropFilter && cs.backdropFilter !== \"none\") {\n      warn(sel2, \"backdrop-filter\", \"approximated via a frosted-glass background fallback for the transparent-backdrop case (doc 19); no true backdrop blur\");\n    }\n    if (cs.position === \"fixed\" || cs.position === \"sticky\") {\n      warn(sel2, \"position:\" + cs.position, \"rendered as a static snapshot at t=0; scroll-following behavior is not animated\");\n    }\n    discoverMasks(el, cs, sel2);\n    discoverClipPaths(el, cs, sel2);\n    const urlFilterRasterToken = discoverFilters(el, cs, sel2);\n    if (cs.borderImageSource && cs.borderImageSource !== \"none\") {\n      warn(sel2, \"border-image\", \"9-slice composition pending (SK-466); border-image-source ignored\");\n    }\n    if (tag === \"canvas\" || tag === \"video\" || tag === \"object\" || tag === \"embed\") {\n      warn(sel2, \"<\" + tag + \">\", \"element type is not rendered by domotion\");\n    } else if (tag === \"iframe\") {\n      if (_iframeIsRecursable(el) == null) {\n        warn(sel2, \"<iframe>\", \"cross-origin / inaccessible frame rendered as a static raster snapshot; same-origin frames recurse to native SVG\");\n      }\n    }\n    if (cs.textAlign === \"justify\") {\n      warn(sel2, \"text-align:justify\", \"path-mode renderer does not space-stretch justified text\");\n    }\n    let text = \"\";\n    let imageSrc = void 0;\n    let svgContent = void 0;\n    let textTop = 0;\n    let textLeft = 0;\n    let textHeight = 0;\n    let textWidth = 0;\n    let fontAscent = 0;\n    let fontDescent = 0;\n    let inputXOffsets;\n    let placeholderColor;\n    let placeholderFontStyle;\n    let placeholderFontWeight;\n    let lineClampTextFragments = false;\n    const textSegments = [];\n    const _pcResult = _contentVisHidden || Array.isArray(_pseudoFragmentFacts) ? { pseudoSegments: [], pseudoBoxes: [] } : capturePseudoContent(el, cs, rect, _counterSnapshot);\n    const pseudoSegments = _pcResult.pseudoSegments;\n    const pseudoBoxes = _pcResult.pseudoBoxes;\n    const textIsHiddenFallback = tag === \"meter\" || tag === \"progress\" || tag === \"datalist\" || tag === \"option\" || tag === \"optgroup\";\n    if (tag !== \"svg\" && tag !== \"img\" && !textIsHiddenFallback && !_contentVisHidden) {\n      const _iv = captureInputValue(el, cs, tag, rect);\n      var isPlaceholderCapture = false;\n      if (_iv.applied) {\n        text = _iv.text;\n        textLeft = _iv.textLeft;\n        textTop = _iv.textTop;\n        textHeight = _iv.textHeight;\n        textWidth = _iv.textWidth;\n        fontAscent = _iv.fontAscent;\n        fontDescent = _iv.fontDescent;\n        inputXOffsets = _iv.inputXOffsets;\n        if (_iv.textSegments != null) for (const seg of _iv.textSegments) textSegments.push(seg);\n        isPlaceholderCapture = _iv.isPlaceholderCapture;\n        placeholderColor = _iv.placeholderColor;\n        placeholderFontStyle = _iv.placeholderFontStyle;\n        placeholderFontWeight = _iv.placeholderFontWeight;\n      } else {\n        const _ts = captureTextSegments(el, cs);\n        text = _ts.text;\n        lineClampTextFragments = _ts.lineClampTextFragments === true;\n        for (const seg of _ts.textSegments) textSegments.push(seg);\n        if (_ts.textLeft != null) {\n          textLeft = _ts.textLeft;\n          textTop = _ts.textTop;\n          textWidth = _ts.textWidth;\n          textHeight = _ts.textHeight;\n          fontAscent = _ts.fontAscent;\n          fontDescent = _ts.fontDescent;\n        }\n      }\n    }\n    const _pi = Array.isArray(_pseudoFragmentFacts) ? { pseudoImages: [], text, textLeft, textTop, textWidth, textHeight, fontAscent } : injectPseudoSegments(el, pseudoSegments, textSegments, {\n      text,\n      textLeft,\n      textTop,\n      textWidth,\n      textHeight,\n      fontAscent\n    });\n    const pseudoImages = _pi.pseudoImages;\n    text = _pi.text;\n    textLeft = _pi.textLeft;\n    textTop = _pi.textTop;\n    textWidth = _pi.textWidth;\n    textHeight = _pi.textHeight;\n    fontAscent = _pi.fontAscent;\n    var _segmentZoom = _effectiveZoomFor(el);\n    for (const _seg of textSegments) {\n      var _segLogicalSize = _seg.fontSize ?? parseFloat(cs.fontSize);\n      if (!isFinite(_segLogicalSize) || _segLogicalSize <= 0) continue;\n      var _segMetricStyle = {\n        fontStyle: _seg.fontStyle ?? cs.fontStyle,\n        fontWeight: _seg.fontWeight ?? cs.fontWeight,\n        fontSize: _segLogicalSize + \"px\",\n        fontFamily: _seg.fontFamily ?? cs.fontFamily\n      };\n      var _segLogicalMetrics = _measureFontMetrics(_segMetricStyle);\n      var _segComputedMetrics = _measureFontMetrics(_segMetricStyle, (_segLogicalSize * _segmentZoom).toFixed(4) + \"px\");\n      if (_seg.fontAscent === _segLogicalMetrics.ascent) _seg.fontAscent = _segComputedMetrics.ascent;\n      if (_seg.fontDescent === _segLogicalMetrics.descent) _seg.fontDescent = _segComputedMetrics.descent;\n      if (_seg.fontSize != null) _seg.fontSize = _segLogicalSize * _segmentZoom;\n    }\n    let textImageUri = void 0;\n    const textImageScale = 2;\n    if (tag === \"img\") {\n      imageSrc = el.currentSrc || el.src;\n      if (el.naturalWidth > 0 && el.naturalHeight > 0) {\n        var imageIntrinsic = { w: el.naturalWidth, h: el.naturalHeight };\n      }\n      var imageBroken = el.complete && el.naturalWidth === 0;\n      var imageAlt = el.alt || \"\";\n      var _imageHasSrc = el.hasAttribute(\"src\");\n      var _imageHasAlt = el.hasAttribute(\"alt\");\n      var _imageHasTitle = el.hasAttribute(\"title\");\n      var brokenImageFallback = {\n        schemaVersion: 1,\n        authority: \"chromium-ua-shadow-v1\",\n        sourceNodeIndex: _projectiveNodeIndex.get(el),\n        selector: sel2,\n        effectiveZoom: _effectiveZoomFor(el),\n        hostRect: {\n          x: rect.left - vp.x,\n          y: rect.top - vp.y,\n          width: rect.width,\n          height: rect.height\n        },\n        source: {\n          complete: el.complete === true,\n          naturalWidth: Number(el.naturalWidth) || 0,\n          naturalHeight: Number(el.naturalHeight) || 0,\n          currentSrc: el.currentSrc || \"\",\n          src: { present: _imageHasSrc, value: _imageHasSrc ? el.getAttribute(\"src\") : null },\n          alt: { present: _imageHasAlt, value: _imageHasAlt ? el.getAttribute(\"alt\") : null },\n          title: { present: _imageHasTitle, value: _imageHasTitle ? el.getAttribute(\"title\") : null },\n          // Blink HTMLImageElement::AltText: a present alt wins even when it\n          // is empty; title is consulted only when alt is absent.\n          resolvedText: _imageHasAlt ? el.getAttribute(\"alt\") || \"\" : _imageHasTitle ? el.getAttribute(\"title\") || \"\" : \"\"\n        }\n      };\n    } else if (tag === \"input\" && el.type === \"image\") {\n      imageSrc = el.src;\n    }\n    const _listsCounters = captureListsCounters(el, cs, tag);\n    let svgReferenceScope = void 0;\n    if (tag === \"svg\") {\n      const inlineSvgCapture = captureInlineSvg(el, cs, warn, sel2);\n      svgContent = inlineSvgCapture.content;\n      if (inlineSvgCapture.affineFreezeFailed && transformSubtreeRaster == null) {\n        transformSubtreeRaster = _makeTransformSubtreeRaster();\n      }\n      svgReferenceScope = _svgReferenceScope(el);\n    }\n    const children = [];\n    if (_contentVisHidden) {\n    } else\n      for (const child of el.children) {\n        if (tag === \"details\" && !el.open && child.tagName.toLowerCase() !== \"summary\") continue;\n        if (tag === \"select\" && (child.tagName.toLowerCase() === \"option\" || child.tagName.toLowerCase() === \"optgroup\")) continue;\n        const c = capture(child);\n        if (c) {\n          const _grp = c.scrollMarkerGroup;\n          const _before = c._scrollMarkerGroupBefore;\n          delete c.scrollMarkerGroup;\n          delete c._scrollMarkerGroupBefore;\n          const _btns = c.scrollButtons;\n          delete c.scrollButtons;\n          if (_grp && _before) children.push(_grp);\n          children.push(c);\n          if (_grp && !_before) children.push(_grp);\n          if (_btns) for (let _bi = 0; _bi < _btns.length; _bi++) children.push(_btns[_bi]);\n        }\n      }\n    const _animId = el.dataset != null ? el.dataset.domotionAnim : void 0;\n    const _magicKey = el.dataset != null ? el.dataset.magicKey : void 0;\n    const _fsBox = computeFieldsetLegendBox(el, tag, rect, vp);\n    const _captured = {\n      tag,\n      text,\n      x: _fsBox.x,\n      y: _fsBox.y,\n      width: _fsBox.width,\n      height: _fsBox.height,\n      fieldsetLegendNotch: _fsBox.fieldsetLegendNotch,\n      resizeHandle: captureResizeHandle(el, cs, tag, rect),\n      // DM-2481: populated by the Node-side live Chromium marker probe.  The\n      // serialized record is already in capture-viewport coordinates and may\n      // be explicitly partial/unavailable; the renderer must never infer a\n      // replacement from scrollWidth/clientWidth or scroll offsets.\n      scrollbars: (function() {\n        const _record = typeof args.sk === \"string\" && args.sk !== \"\" ? el[args.sk] : void 0;\n        if (_record == null && (cs.overflowX === \"auto\" || cs.overflowX === \"scroll\" || cs.overflowY === \"auto\" || cs.overflowY === \"scroll\")) {\n          warn(sel2, \"scrollbar-capture\", \"live Chromium scrollbar probe did not correlate this scroll host; legacy synthesis is disabled\");\n        }\n        return _record;\n      })(),\n      animId: _animId,\n      magicKey: _magicKey,\n      // DM-2457: private correlation only. The Node/CDP post-pass resolves the\n      // real generated ::marker fragment and deletes this index before return.\n      _summaryMarkerSourceNodeIndex: tag === \"summary\" && cs.display != null && cs.display.includes(\"list-item\") ? _projectiveNodeIndex.get(el) : void 0,\n      svgReferenceScope,\n      // DM-1106: effective cursor keyword for the auto cursor-overlay hit-test.\n      // Omitted when it resolves to the default arrow (the common case) to keep\n      // the tree lean — the overlay treats a missing value as `default`.\n      cursor: (() => {\n        const _c = resolveElementCursor(el, cs);\n        return _c === \"default\" ? void 0 : _c;\n      })(),\n      styles: {\n        // Border + background + outline + box-shadow fields — see\n        // walker/borders-backgrounds.ts. Includes the\n        // backgroundColor placeholder-shown fallback (DM-283), %-resolved\n        // corner radii (SK-1093), per-side color-input border tint\n        // workaround (DM-434), frosted-bg fallback (DM-476), per-layer\n        // background-image intrinsic dims (DM-308), and border-image\n        // intrinsic dims.\n        ...captureBordersBackgrounds(el, cs, tag, rect, isPlaceholderCapture, _effectiveZoomFor(el)),\n        backgroundAttachmentGeometry: (function() {\n          const _scale = _backgroundAttachmentPaintScaleFor(el);\n          return captureBackgroundAttachment(el, cs, rect, _scale[0], _scale[1]);\n        })(),\n        overflowX: cs.overflowX,\n        overflowY: cs.overflowY,\n        // DM-761: `overflow-clip-margin` extends the overflow clip outward\n        // from a reference box (content / padding / border) by a length.\n        // Blink serializes computed lengths before effective CSS zoom while\n        // DOMRects are already physical. Cross that boundary once here; the\n        // reference-box keyword is retained byte-for-byte.\n        overflowClipMargin: cs.overflowClipMargin ? physicalComputedTileSize(cs.overflowClipMargin, _effectiveZoomFor(el)) : void 0,\n        scrollbarGutter: cs.scrollbarGutter || \"auto\",\n        scrollWidth: el.scrollWidth,\n        scrollHeight: el.scrollHeight,\n        clientWidth: el.clientWidth,\n        clientHeight: el.clientHeight,\n        scrollTop: el.scrollTop,\n        scrollLeft: el.scrollLeft,\n        objectFit: cs.objectFit,\n        objectPosition: cs.objectPosition,\n        filter: cs.filter,\n        backdropFilter: cs.backdropFilter || cs.webkitBackdropFilter || \"\",\n        mixBlendMode: cs.mixBlendMode,\n        clipPath: cs.clipPath,\n        mask: cs.mask || cs.webkitMask || \"\",\n        maskImage: cs.maskImage || cs.webkitMaskImage || \"\",\n        maskMode: cs.maskMode || \"match-source\",\n        // Computed mask lengths are exposed before effective zoom, while the\n        // captured positioning rect is already in painted coordinates. Cross\n        // that boundary once; percentages stay unresolved until Blink's\n        // contain/cover tile has established the free space (DM-2379).\n        maskSize: physicalComputedTileSize(cs.maskSize || cs.webkitMaskSize || \"auto\", _effectiveZoomFor(el)),\n        maskPosition: physicalComputedTileSize(cs.maskPosition || cs.webkitMaskPosition || \"0% 0%\", _effectiveZoomFor(el)),\n        maskRepeat: cs.maskRepeat || cs.webkitMaskRepeat || \"repeat\",\n        maskComposite: cs.maskComposite || cs.webkitMaskComposite || \"add\",\n        maskIntrinsic: computeMaskIntrinsic(el, cs),\n        maskOrigin: cs.maskOrigin || cs.webkitMaskOrigin || \"border-box\",\n        maskClip: cs.maskClip || cs.webkitMaskClip || \"border-box\",\n        // DM-2472: BackgroundImageGeometry contracts the HTML border box by\n        // mask-origin independently from mask-clip. Computed padding/borders\n        // are pre-zoom CSS px while `rect` is already physical, so cross the\n        // effective-zoom boundary once at capture time.\n        maskBoxInsets: (function() {\n          var _maskImage = cs.maskImage || cs.webkitMaskImage || \"\";\n          if (_maskImage === \"\" || _maskImage === \"none\") return void 0;\n          var _zoom = _effectiveZoomFor(el);\n          var _physical = function(value) {\n            var _number = parseFloat(value || \"0\");\n            return Number.isFinite(_number) ? _number * _zoom : 0;\n          };\n          return {\n            border: {\n              top: _physical(cs.borderTopWidth),\n              right: _physical(cs.borderRightWidth),\n              bottom: _physical(cs.borderBottomWidth),\n              left: _physical(cs.borderLeftWidth)\n            },\n            padding: {\n              top: _physical(cs.paddingTop),\n              right: _physical(cs.paddingRight),\n              bottom: _physical(cs.paddingBottom),\n              left: _physical(cs.paddingLeft)\n            }\n          };\n        })(),\n        // DM-758: `mask-border-source` / legacy `-webkit-mask-box-image`. Chrome\n        // exposes only the legacy webkit name; modern `maskBorderSource`\n        // returns undefined. Capture source + slice / width / outset so the\n        // renderer can decide whether to route through the simplified\n        // full-element mask path (only safe when width / outset both `0`).\n        maskBorderSource: cs.webkitMaskBoxImageSource && cs.webkitMaskBoxImageSource !== \"none\" ? cs.webkitMaskBoxImageSource : void 0,\n        maskBorderSlice: cs.webkitMaskBoxImageSlice || void 0,\n        maskBorderWidth: cs.webkitMaskBoxImageWidth || void 0,\n        maskBorderOutset: cs.webkitMaskBoxImageOutset || void 0,\n        // DM-793: legacy `-webkit-mask-box-image-repeat` keyword (stretch /\n        // repeat / round / space) per axis. Mirrors `border-image-repeat`.\n        maskBorderRepeat: cs.webkitMaskBoxImageRepeat || void 0,\n        // DM-793: intrinsic dimensions of the mask-border-source raster /\n        // SVG asset. Same probe pattern as `borderImageIntrinsic*` — a\n        // detached `<img>` resolves the URL against the document base and\n        // reports `naturalWidth` / `naturalHeight` for raster sources and\n        // the `<svg width/height>` attributes (or viewBox-derived size) for\n        // SVG sources. Captured at capture time so the renderer can compute\n        // 9-slice source rects without re-fetching the asset.\n        maskBorderIntrinsicWidth: (function() {\n          var _url = extractCssUrl(cs.webkitMaskBoxImageSource || \"\");\n          if (_url == null) return void 0;\n          var _img = new Image();\n          _img.src = _url;\n          return _img.naturalWidth || void 0;\n        })(),\n        maskBorderIntrinsicHeight: (function() {\n          var _url = extractCssUrl(cs.webkitMaskBoxImageSource || \"\");\n          if (_url == null) return void 0;\n          var _img = new Image();\n          _img.src = _url;\n          return _img.naturalHeight || void 0;\n        })(),\n        listStyleType: cs.listStyleType,\n        listStyleImage: cs.listStyleImage,\n        display: cs.display,\n        listStylePosition: cs.listStylePosition,\n        paddingTop: cs.paddingTop,\n        paddingRight: cs.paddingRight,\n        paddingBottom: cs.paddingBottom,\n        paddingLeft: cs.paddingLeft,\n        marginTop: cs.marginTop,\n        marginRight: cs.marginRight,\n        marginBottom: cs.marginBottom,\n        marginLeft: cs.marginLeft,\n        zIndex: cs.zIndex,\n        position: cs.position,\n        float: cs.float,\n        // DM-1742: `pointer-events: none` makes an element transparent to\n        // cursor hit-testing (the auto cursor-overlay glyph picker). Captured\n        // only when `none` — the property inherits, so descendants report it\n        // themselves; every other value hit-tests normally.\n        pointerEvents: cs.pointerEvents === \"none\" ? \"none\" : void 0,\n        order: cs.order,\n        flexDirection: cs.flexDirection,\n        emptyCellsHidden: isTableCellHiddenByEmptyCells(el, cs, tag),\n        // Form-control fields — input / progress / meter / select / details\n        // + ::-webkit-* pseudos for slider track/thumb, color swatch, number\n        // spin button, search cancel, file-selector button. See\n        // walker/form-controls.ts. Input value-capture-as-text and color-\n        // input border tinting deliberately stay inline (entangled with\n        // text-shaping and border-color emission respectively).\n        ...captureFormControls(el, cs, tag),\n        ..._fileSelectorCapture,\n        // ComputedStyle::EffectiveAppearance after Blink's author-style\n        // adjustment. This is distinct from the computed `appearance`\n        // longhand and lets later decoration ownership split at the exact\n        // menulist-button boundary (DM-2455).\n        effectiveAppearance: _effectiveAppearance || void 0,\n        textShadow: cs.textShadow,\n        ...threadFrozenTransform(cs, frozenTransform, frozenTransformOrigin),\n        transformRelatedBox: _transformRelatedBox.get(el),\n        // CSS Transforms 2 §4: `transform-style` != `flat` (i.e. `preserve-3d`)\n        // creates a stacking context. Captured so the renderer's SC detection\n        // sees it; otherwise z-index:-1 descendants hoist past their intended\n        // SC and end up behind the wrong background (DM-589).\n        transformStyle: cs.transformStyle,\n        // DM-2385: keep perspective as its own computed ancestor signal. It\n        // creates stacking/fixed-CB ownership without appearing in a child's\n        // computed transform matrix; perspective-origin is the resolved\n        // border-box point and is inert when perspective computes to none.\n        perspective: cs.perspective,\n        perspectiveOrigin: cs.perspectiveOrigin,\n        backfaceVisibility: cs.backfaceVisibility,\n        webkitBoxReflect: cs.webkitBoxReflect,\n        willChange: cs.willChange,\n        contain: cs.contain,\n        isolation: cs.isolation,\n        writingMode: cs.writingMode,\n        textOrientation: cs.textOrientation,\n        // CSS resize: 'none' / 'both' / 'vertical' / 'horizontal' / 'block' /\n        // 'inline'. When non-none on a <textarea> Chrome paints a small\n        // diagonal-line resize handle in the bottom-right corner. (DM-339)\n        resize: cs.resize,\n        textOverflow: cs.textOverflow,\n        whiteSpace: cs.whiteSpace,\n        textTransform: cs.textTransform,\n        color: normColor(cs.color),\n        // DM-2470: font metrics live in Blink's pre-transform plane. Effective\n        // CSS zoom is layout-local and is crossed here exactly once; the later\n        // signed CSS transform is carried solely by textPaintGeometry.\n        fontSize: (function() {\n          var _fs = parseFloat(cs.fontSize);\n          if (!isFinite(_fs)) return cs.fontSize;\n          return (_fs * _effectiveZoomFor(el)).toFixed(4) + \"px\";\n        })(),\n        fontLogicalSize: cs.fontSize,\n        fontComputedSize: (function() {\n          var _fs = parseFloat(cs.fontSize);\n          if (!isFinite(_fs)) return cs.fontSize;\n          return (_fs * _effectiveZoomFor(el)).toFixed(4) + \"px\";\n        })(),\n        // DM-2051: an element with NO author-declared font-family is a Blink\n        // kStandardFamily description, which resolves to the SCRIPT-KEYED\n        // `settings.Standard(script)` — so `lang=ja` with no declared family\n        // paints the Japanese standard face for the whole run, though the\n        // computed string serializes to the concrete standard name (\"Times\").\n        // Rewrite that case to the `-webkit-standard` generic keyword, which is\n        // exactly what kStandardFamily maps to; the renderer's\n        // `matchFamilyNameToKey(\"-webkit-standard\", true, lang)` then routes it\n        // script-keyed. A declared `font-family: Times` (identical computed\n        // string, but Latin→Times / CJK→fallback) is left untouched.\n        fontFamily: _familyIsUADefault(el, cs.fontFamily) ? \"-webkit-standard\" : cs.fontFamily,\n        fontWeight: cs.fontWeight,\n        fontStyle: cs.fontStyle,\n        opacity: cs.opacity,\n        lineHeight: cs.lineHeight,\n        letterSpacing: cs.letterSpacing,\n        fontKerning: cs.fontKerning,\n        fontStretch: cs.fontStretch,\n        fontVariationSettings: cs.fontVariationSettings,\n        fontOpticalSizing: cs.fontOpticalSizing,\n        fontFeatureSettings: cs.fontFeatureSettings,\n        fontVariantAlternates: cs.fontVariantAlternates,\n        // The alias table is document-global but only alternate-bearing nodes\n        // can consume it; omit it from the common element shape to avoid\n        // repeating author rule data throughout the serialized tree.\n        fontFeatureValues: cs.fontVariantAlternates && cs.fontVariantAlternates !== \"normal\" ? _fontFeatureValuesFor(el.ownerDocument) : void 0,\n        // CSS font-variant-caps. 'small-caps' / 'all-small-caps' route to\n        // the OpenType smcp feature; renderer applies synthesized small-caps\n        // when the active font lacks smcp (Helvetica, Times, etc.). DM-361.\n        fontVariantCaps: cs.fontVariantCaps,\n        // CSS font-variant-east-asian / -numeric / -ligatures. Each maps to a\n        // set of OpenType feature tags (e.g. `traditional` → `trad`, `jis78` →\n        // `jp78`, `oldstyle-nums` → `onum`) that the path renderer forwards to\n        // fontkit shaping. Without these, e.g. `font-variant-east-asian:\n        // traditional` paints the simplified/JP default glyph (国) instead of\n        // the traditional form (國). DM-1117.\n        fontVariantEastAsian: cs.fontVariantEastAsian,\n        fontVariantNumeric: cs.fontVariantNumeric,\n        fontVariantLigatures: cs.fontVariantLigatures,\n        // CSS font-variant-position — maps to the OpenType subs/sups\n        // features (`font_features.cc:230-239`, rev 7d859f27). DM-2048.\n        fontVariantPosition: cs.fontVariantPosition,\n        // CSS font-synthesis-{weight,style,small-caps} — `auto` or `none`. Not a\n        // hint: Blink ANDs each into the corresponding synthesis decision, so\n        // `none` means Chrome paints the thin/upright/lowercase face where we\n        // would otherwise embolden, shear, or scale. DM-1971.\n        // CSS text-rendering — `optimizeSpeed` disables the normal-state\n        // ligature features at shaping time, the same way a non-zero\n        // letter-spacing does. DM-1963.\n        textRendering: cs.textRendering,\n        fontSynthesisWeight: cs.fontSynthesisWeight,\n        fontSynthesisStyle: cs.fontSynthesisStyle,\n        fontSynthesisSmallCaps: cs.fontSynthesisSmallCaps,\n        // CSS font-variant-emoji — a genuine face-selection input (it overrides\n        // the run's emoji-vs-text fallback priority and forces VS15/VS16 into\n        // the glyph lookups). The renderer threads it into the per-codepoint\n        // resolver and the raster-emoji overlay routing.\n        fontVariantEmoji: cs.fontVariantEmoji,\n        direction: cs.direction,\n        // `unicode-bidi` decides whether the characters' OWN bidi types are\n        // honored or overridden. `bidi-override` / `isolate-override` tell the\n        // UBA to treat every character as strong in `direction`, which is the\n        // one case the renderer cannot reconstruct from the text: it derives\n        // levels by running the algorithm on the characters, and the override\n        // is precisely an instruction to ignore what the characters say.\n        unicodeBidi: cs.unicodeBidi,\n        // Computed BCP-47 language tag from el.lang or nearest ancestor\n        // [lang], falling back to document.documentElement.lang. Used by the\n        // path renderer to route CJK Han fallback to the right PingFang\n        // regional variant. (DM-394)\n        lang: (function() {\n          var n = el;\n          while (n != null && n.nodeType === 1) {\n            if (n.lang) return n.lang;\n            n = n.parentElement;\n          }\n          return document.documentElement.lang || \"\";\n        })(),\n        textDecorationLine: cs.textDecorationLine,\n        textDecorationColor: cs.textDecorationColor,\n        textDecorationStyle: cs.textDecorationStyle,\n        textDecorationThickness: cs.textDecorationThickness,\n        textUnderlineOffset: cs.textUnderlineOffset,\n        textUnderlinePosition: cs.textUnderlinePosition,\n        textDecorationSkipInk: cs.textDecorationSkipInk,\n        // DM-920: text-emphasis. Captured per CSS Text Decoration 3 §3.5.\n        // `text-emphasis-style` resolved string (\"filled circle\" / \"open\n        // sesame\" / `\"★\"` etc.) maps to a single mark character in the\n        // renderer per Chromium's `ComputedStyle::TextEmphasisMarkString`\n        // (third_party/blink/renderer/core/style/computed_style.cc:\n        // kBullet U+2022 / kWhiteBullet U+25E6 / kBlackCircle U+25CF /\n        // kWhiteCircle U+25CB / kFisheye U+25C9 / kBullseye U+25CE /\n        // kBlackUpPointingTriangle U+25B2 / kWhiteUpPointingTriangle\n        // U+25B3 / kSesameDot U+FE45 / kWhiteSesameDot U+FE46).\n        textEmphasisStyle: cs.textEmphasisStyle,\n        textEmphasisColor: cs.textEmphasisColor,\n        textEmphasisPosition: cs.textEmphasisPosition\n      },\n      projectiveTransform,\n      projectiveHidden,\n      transformSubtreeRaster,\n      children,\n      imageSrc,\n      imageIntrinsic,\n      imageBroken,\n      imageAlt,\n      brokenImageFallback,\n      svgContent,\n      pseudoFragments: Array.isArray(_pseudoFragmentFacts) ? _pseudoFragmentFacts : void 0,\n      pseudoImages,\n      pseudoBoxes: pseudoBoxes.length > 0 ? pseudoBoxes : void 0,\n      // SK-1115: ::marker pseudo styles plus list-marker intrinsic dims and\n      // list-item index — see walker/lists-counters.ts.\n      ..._listsCounters,\n      textSegments: textSegments.length > 0 ? textSegments : void 0,\n      textPaintGeometry: _textPaintFact != null ? _textPaintFact.geometry : void 0,\n      // Correlation marker emitted only by the all-transform-neutral probe\n      // capture and consumed before that intermediate tree is discarded.\n      _textPaintSourceKey: args.tgp === true ? _textPaintSourceKeyFor(el) : void 0,\n      lineClampTextFragments: lineClampTextFragments || void 0,\n      textTop,\n      textLeft,\n      textHeight,\n      textWidth,\n      // DM-2446: Blink chooses and measures the face at computed size\n      // (logical CSS size × effective zoom), then the transform stage scales\n      // those metrics into paint space. Re-measure at computed size instead of\n      // multiplying logical-size metrics by zoom: variable-font metrics can\n      // change non-linearly when the computed size selects another instance.\n      fontAscent: (function() {\n        if (fontAscent == null) return fontAscent;\n        var _logical = parseFloat(cs.fontSize);\n        var _zoom = _effectiveZoomFor(el);\n        var _computed = _logical * _zoom;\n        if (!isFinite(_computed) || _zoom === 0) return fontAscent;\n        if (fontAscent !== _measureFontMetrics(cs).ascent) return fontAscent;\n        return _measureFontMetrics(cs, _computed.toFixed(4) + \"px\").ascent;\n      })(),\n      fontDescent: (function() {\n        if (fontDescent == null) return fontDescent;\n        var _logical = parseFloat(cs.fontSize);\n        var _zoom = _effectiveZoomFor(el);\n        var _computed = _logical * _zoom;\n        if (!isFinite(_computed) || _zoom === 0) return fontDescent;\n        if (fontDescent !== _measureFontMetrics(cs).descent) return fontDescent;\n        return _measureFontMetrics(cs, _computed.toFixed(4) + \"px\").descent;\n      })(),\n      inputXOffsets,\n      textImageUri,\n      textImageScale,\n      // Placeholder metadata (SK-1097 / SK-1100 / SK-1099): captured in\n      // walker/input-value.ts when the host is a placeholder-shown input\n      // or textarea. Undefined elsewhere.\n      isPlaceholderText: isPlaceholderCapture || void 0,\n      placeholderColor,\n      placeholderFontStyle,\n      placeholderFontWeight,\n      // Old-capture compatibility field. Current textarea and vertical text\n      // capture is fully vector; see walker/text-segments.ts.\n      elementRaster: computeElementRaster(el, cs, tag, rect, vp),\n      // DM-2149 / DM-2453: snapshot only appearances for which Blink's\n      // ThemePainter owns the complete host. EffectiveAppearance is derived\n      // above from the actual auto mapping and cascade-origin author flags.\n      // menulist-button/listbox/base states keep their author-owned host box\n      // structural; native decoration splitting is owned by DM-2455.\n      nativeControlRaster: (function() {\n        if (!_nativeControlTag || rect.width <= 0 || rect.height <= 0) return void 0;\n        if (_effectiveAppearance != null && !isWholeHostNativeAppearance(_effectiveAppearance)) return void 0;\n        const outlineWidth = parseFloat(cs.outlineWidth) || 0;\n        const outlineOffset = parseFloat(cs.outlineOffset) || 0;\n        const expand = cs.outlineStyle !== \"none\" && cs.outlineStyle !== \"hidden\" ? Math.max(0, outlineWidth + outlineOffset) : 0;\n        const paintOverflow = 1;\n        const rasterExpand = expand + paintOverflow;\n        return {\n          x: rect.left - vp.x - rasterExpand,\n          y: rect.top - vp.y - rasterExpand,\n          width: rect.width + rasterExpand * 2,\n          height: rect.height + rasterExpand * 2,\n          // Private capture-to-live-DOM correlation. The Node post-pass uses\n          // the pre-existing source registry, so no marker attribute can\n          // activate author CSS before the isolated Chromium screenshot.\n          sourceNodeIndex: _projectiveNodeIndex.get(el),\n          selector: sel2,\n          // LayoutProgress::IsDeterminate feeds ThemePainterDefault's native\n          // progress parameters. Only the missing-value state advances its\n          // platform paint independently of author animation timelines.\n          frameSensitive: tag === \"progress\" && !el.hasAttribute(\"value\") || void 0\n        };\n      })(),\n      // A CSS-owned host can still contain either ThemePainter's select arrow\n      // or layout-backed closed-UA-shadow decorations. Keep the host box and\n      // value text structural, but reserve this narrow overlay so a failed\n      // Chromium isolation can never reopen the sampled glyph functions.\n      nativeControlDecorationRaster: (function() {\n        if (_nativeDecorationKinds.length === 0 || rect.width <= 0 || rect.height <= 0) return void 0;\n        const rasterExpand = 1;\n        const _fileButtonPart = _nativeDecorationKinds.indexOf(\"file-selector-button\") >= 0 ? _nativeDecorationParts.find((_part) => _part.kind === \"file-selector-button\") : void 0;\n        const base = _fileButtonPart != null ? {\n          x: _fileButtonPart.x - vp.x,\n          y: _fileButtonPart.y - vp.y,\n          width: _fileButtonPart.width,\n          height: _fileButtonPart.height,\n          kinds: _nativeDecorationKinds,\n          exactPartBox: true\n        } : {\n          x: rect.left - vp.x - rasterExpand,\n          y: rect.top - vp.y - rasterExpand,\n          width: rect.width + rasterExpand * 2,\n          height: rect.height + rasterExpand * 2,\n          kinds: _nativeDecorationKinds\n        };\n        if (_nativeDecorationUnavailableReason != null) {\n          return Object.assign(base, {\n            unavailableReason: _nativeDecorationUnavailableReason,\n            selector: sel2\n          });\n        }\n        if (_missingNativeDecorationKinds.length > 0) {\n          return Object.assign(base, {\n            unavailableReason: \"pierced UA-shadow node missing: \" + _missingNativeDecorationKinds.join(\", \"),\n            selector: sel2\n          });\n        }\n        const selectArrow = _nativeDecorationKinds.indexOf(\"menulist-button-arrow\") >= 0;\n        if (!selectArrow && _nativeDecorationParts.length === 0) {\n          return Object.assign(base, { empty: true });\n        }\n        return Object.assign(base, {\n          sourceNodeIndex: _projectiveNodeIndex.get(el),\n          selector: sel2,\n          selectArrow: selectArrow || void 0,\n          parts: _nativeDecorationParts.length > 0 ? _nativeDecorationParts : void 0\n        });\n      })(),\n      // DM-2171: backdrop-filter samples already-painted content behind this\n      // element through a distinct Blink effect node. An img-rendered SVG has\n      // no equivalent input surface, so preserve Chromium's composited pixels\n      // for the complete isolation subtree at its paint-order position.\n      backdropFilterRaster: (function() {\n        const value = cs.backdropFilter || cs.webkitBackdropFilter || \"\";\n        if (value === \"\" || value === \"none\" || rect.width <= 0 || rect.height <= 0) return void 0;\n        const token = \"bf\" + _backdropRasterSeq++;\n        el.setAttribute(\"data-domotion-backdrop-raster\", token);\n        return { x: rect.left - vp.x, y: rect.top - vp.y, width: rect.width, height: rect.height, token };\n      })(),\n      // DM-2415: a CSS URL filter containing feConvolveMatrix needs Blink's\n      // original layer-space SourceGraphic pixels. The Node post-pass replaces\n      // this placeholder with the isolated, fully-filtered Chromium surface.\n      urlFilterRaster: urlFilterRasterToken == null ? void 0 : {\n        x: rect.left - vp.x,\n        y: rect.top - vp.y,\n        width: rect.width,\n        height: rect.height,\n        token: urlFilterRasterToken\n      }\n    };\n    detectInlineFragments(el, cs, vp, _captured);\n    if (bordersOnlyCell) {\n      _captured.text = \"\";\n      _captured.children = [];\n      _captured.styles.backgroundColor = \"rgba(0, 0, 0, 0)\";\n      _captured.styles.backgroundImage = void 0;\n      _captured.textSegments = void 0;\n      _captured.imageSrc = void 0;\n      _captured.svgContent = void 0;\n      _captured.pseudoImages = void 0;\n      _captured.elementRaster = void 0;\n    }\n    if (tag === \"iframe\" && !bordersOnlyCell) {\n      var _iframeNode = _captureIframeRecursion(el, cs, rect);\n      if (_iframeNode != null) {\n        _captured.children = [_iframeNode];\n        _captured._iframeRecursed = true;\n        _captured.styles.overflowX = \"hidden\";\n        _captured.styles.overflowY = \"hidden\";\n      }\n    }\n    handleReplacedElement(el, cs, tag, rect, _captured, bordersOnlyCell);\n    delete _captured._iframeRecursed;\n    if (!bordersOnlyCell) {\n      var _smg = _captureScrollMarkerGroup(el, cs, rect);\n      if (_smg) {\n        _captured.scrollMarkerGroup = _smg.node;\n        _captured._scrollMarkerGroupBefore = _smg.before;\n      }\n      var _sbtns = _captureScrollButtons(el, cs, rect);\n      if (_sbtns) _captured.scrollButtons = _sbtns;\n    }\n    return _captured;\n  };\n  function _captureScrollMarkerGroup(el, cs, rect) {\n    var smg = cs.scrollMarkerGroup != null && cs.scrollMarkerGroup !== \"\" ? cs.scrollMarkerGroup : cs.getPropertyValue ? cs.getPropertyValue(\"scroll-marker-group\") : \"\";\n    if (!smg || smg.indexOf(\"none\") === 0) return void 0;\n    var position = smg.indexOf(\"before\") === 0 ? \"before\" : smg.indexOf(\"after\") === 0 ? \"after\" : null;\n    if (!position) return void 0;\n    var items = [];\n    for (var i = 0; i < el.children.length; i++) {\n      var child = el.children[i];\n      var mcs = window.getComputedStyle(child, \"::scroll-marker\");\n      var content = mcs.content;\n      if (!content || content === \"none\" || content === \"normal\") continue;\n      items.push({ mcs, content });\n    }\n    if (items.length === 0) return void 0;\n    var gcs = window.getComputedStyle(el, \"::scroll-marker-group\");\n    var doc = el.ownerDocument;\n    var container = doc.createElement(\"div\");\n    var groupWidth = rect.width;\n    container.style.boxSizing = \"border-box\";\n    container.style.position = \"absolute\";\n    container.style.margin = \"0\";\n    container.style.display = gcs.display && gcs.display !== \"inline\" ? gcs.display : \"flex\";\n    container.style.justifyContent = gcs.justifyContent || \"center\";\n    container.style.alignItems = \"flex-start\";\n    container.style.gap = \"0\";\n    container.style.padding = gcs.padding || \"0\";\n    container.style.background = gcs.backgroundColor || \"transparent\";\n    container.style.borderRadius = gcs.borderRadius || \"0\";\n    container.style.width = groupWidth + \"px\";\n    container.style.left = \"-99999px\";\n    container.style.top = \"0px\";\n    for (var j = 0; j < items.length; j++) {\n      var mc = items[j].mcs;\n      var m = doc.createElement(\"div\");\n      var txt = items[j].content;\n      if (txt === '\"\"' || txt === \"''\") txt = \"\";\n      else if (txt.length >= 2 && (txt[0] === '\"' && txt[txt.length - 1] === '\"' || txt[0] === \"'\" && txt[txt.length - 1] === \"'\")) txt = txt.slice(1, -1);\n      else txt = \"\";\n      m.textContent = txt;\n      m.style.boxSizing = mc.boxSizing || \"content-box\";\n      m.style.flex = \"0 0 auto\";\n      if (txt === \"\") {\n        m.style.width = mc.width;\n        m.style.height = mc.height;\n      }\n      m.style.borderRadius = mc.borderRadius;\n      m.style.background = mc.backgroundColor;\n      m.style.color = mc.color;\n      m.style.marginTop = mc.marginTop || \"0\";\n      m.style.marginBottom = mc.marginBottom || \"0\";\n      m.style.marginLeft = mc.marginLeft || \"0\";\n      m.style.marginRight = mc.marginRight || \"0\";\n      m.style.paddingTop = mc.paddingTop;\n      m.style.paddingBottom = mc.paddingBottom;\n      m.style.paddingLeft = \"0\";\n      m.style.paddingRight = \"0\";\n      m.style.fontSize = mc.fontSize;\n      m.style.fontWeight = mc.fontWeight;\n      m.style.fontFamily = mc.fontFamily;\n      m.style.lineHeight = mc.lineHeight;\n      m.style.display = mc.display && mc.display !== \"inline\" ? mc.display : \"inline-block\";\n      if (mc.transform && mc.transform !== \"none\") m.style.transform = mc.transform;\n      if (mc.transformOrigin) m.style.transformOrigin = mc.transformOrigin;\n      var bw = parseFloat(mc.borderTopWidth || \"0\") || 0;\n      if (bw > 0) {\n        m.style.borderStyle = mc.borderTopStyle;\n        m.style.borderWidth = mc.borderTopWidth;\n        m.style.borderColor = mc.borderTopColor;\n      }\n      container.appendChild(m);\n    }\n    var padTop = parseFloat(gcs.paddingTop || \"0\") || 0;\n    var padBottom = parseFloat(gcs.paddingBottom || \"0\") || 0;\n    var groupBoxH = padTop + padBottom;\n    container.style.height = groupBoxH + \"px\";\n    container.style.overflow = \"visible\";\n    doc.body.appendChild(container);\n    var targetTop = position === \"after\" ? rect.bottom : rect.top - groupBoxH;\n    container.style.left = rect.left + window.scrollX + \"px\";\n    container.style.top = targetTop + window.scrollY + \"px\";\n    var node = capture(container);\n    doc.body.removeChild(container);\n    if (!node) return void 0;\n    return { node, before: position === \"before\" };\n  }\n  function _scrollButtonAuthorRules(el) {\n    var sides = {};\n    var disabled = {};\n    var star = {};\n    var sheets = el.ownerDocument.styleSheets;\n    for (var s = 0; s < sheets.length; s++) {\n      var rules;\n      try {\n        rules = sheets[s].cssRules;\n      } catch (e) {\n        continue;\n      }\n      if (!rules) continue;\n      for (var r = 0; r < rules.length; r++) {\n        var rule = rules[r];\n        var sel2 = rule.selectorText;\n        if (!sel2) continue;\n        var at = sel2.indexOf(\"::scroll-button(\");\n        if (at < 0) continue;\n        var close = sel2.indexOf(\")\", at);\n        if (close < 0) continue;\n        var dir = sel2.slice(at + 16, close).trim();\n        var base = sel2.slice(0, at).trim();\n        var matches = false;\n        try {\n          matches = base === \"\" || el.matches(base);\n        } catch (e) {\n          matches = false;\n        }\n        if (!matches) continue;\n        var isDisabled = sel2.slice(close + 1).indexOf(\":disabled\") >= 0;\n        var bucket = isDisabled ? disabled : dir === \"*\" ? star : sides[dir] || (sides[dir] = {});\n        var decl = rule.style;\n        for (var d = 0; d < decl.length; d++) bucket[decl[d]] = decl.getPropertyValue(decl[d]);\n      }\n    }\n    for (var k in sides) {\n      if (!Object.prototype.hasOwnProperty.call(sides, k)) continue;\n      var merged = {};\n      for (var sp in star) if (Object.prototype.hasOwnProperty.call(star, sp)) merged[sp] = star[sp];\n      for (var op in sides[k]) if (Object.prototype.hasOwnProperty.call(sides[k], op)) merged[op] = sides[k][op];\n      sides[k] = merged;\n    }\n    return { sides, disabled };\n  }\n  function _captureScrollButtons(el, cs, rect) {\n    var probe = window.getComputedStyle(el, \"::scroll-button(left)\").content;\n    if (!probe || probe === \"none\" || probe === \"normal\") {\n      probe = window.getComputedStyle(el, \"::scroll-button(right)\").content;\n      if (!probe || probe === \"none\" || probe === \"normal\") return void 0;\n    }\n    var rules = _scrollButtonAuthorRules(el);\n    var doc = el.ownerDocument;\n    var maxX = el.scrollWidth - el.clientWidth;\n    var maxY = el.scrollHeight - el.clientHeight;\n    var nodes = [];\n    for (var dir in rules.sides) {\n      if (!Object.prototype.hasOwnProperty.call(rules.sides, dir)) continue;\n      var decls = rules.sides[dir];\n      var isDisabled = false;\n      if (dir === \"left\" || dir === \"inline-start\") isDisabled = el.scrollLeft <= 0;\n      else if (dir === \"right\" || dir === \"inline-end\") isDisabled = el.scrollLeft >= maxX - 1;\n      else if (dir === \"up\" || dir === \"block-start\") isDisabled = el.scrollTop <= 0;\n      else if (dir === \"down\" || dir === \"block-end\") isDisabled = el.scrollTop >= maxY - 1;\n      var btn = doc.createElement(\"div\");\n      var content = \"\";\n      for (var p in decls) {\n        if (!Object.prototype.hasOwnProperty.call(decls, p)) continue;\n        if (p === \"content\") {\n          content = decls[p];\n          continue;\n        }\n        try {\n          btn.style.setProperty(p, decls[p]);\n        } catch (e) {\n        }\n      }\n      if (isDisabled) {\n        for (var dp in rules.disabled) {\n          if (!Object.prototype.hasOwnProperty.call(rules.disabled, dp)) continue;\n          try {\n            btn.style.setProperty(dp, rules.disabled[dp]);\n          } catch (e) {\n          }\n        }\n      }\n      if (!btn.style.position || btn.style.position === \"static\") btn.style.position = \"absolute\";\n      btn.style.margin = \"0\";\n      var txt = \"\";\n      if (content.length >= 2 && (content[0] === '\"' && content[content.length - 1] === '\"' || content[0] === \"'\" && content[content.length - 1] === \"'\")) {\n        txt = content.slice(1, -1);\n      }\n      btn.textContent = txt;\n      doc.body.appendChild(btn);\n      var node = capture(btn);\n      doc.body.removeChild(btn);\n      if (node) nodes.push(node);\n    }\n    return nodes.length ? nodes : void 0;\n  }\n  function _frameIsCrossOrigin(el) {\n    try {\n      var w = el.contentWindow;\n      if (w == null) return true;\n      var o = w.location && w.location.origin;\n      if (o == null || o === \"\" || o === \"null\") return false;\n      return o !== location.origin;\n    } catch (e) {\n      return true;\n    }\n  }\n  function _crossOriginFrameAllowed(el) {\n    if (_crossOriginAllow == null) return false;\n    var url;\n    try {\n      url = el.contentWindow && el.contentWindow.location ? el.contentWindow.location.href : el.src;\n    } catch (e) {\n      url = el.src;\n    }\n    return frameHostAllowed(url || \"\", _crossOriginAllow);\n  }\n  function _iframeIsRecursable(el) {\n    if (el.tagName == null || el.tagName.toLowerCase() !== \"iframe\") return null;\n    var doc;\n    try {\n      doc = el.contentDocument;\n    } catch (e) {\n      return null;\n    }\n    if (doc == null || doc.body == null || doc.documentElement == null) return null;\n    if (_frameIsCrossOrigin(el) && !_crossOriginFrameAllowed(el)) return null;\n    return doc;\n  }\n  function _captureIframeRecursion(el, cs, rect) {\n    var doc = _iframeIsRecursable(el);\n    if (doc == null) return void 0;\n    var bsw = sideWidths(cs, \"border\", \"Width\");\n    var dx = rect.left + bsw.left + (parseFloat(cs.paddingLeft) || 0);\n    var dy = rect.top + bsw.top + (parseFloat(cs.paddingTop) || 0);\n    var savedX = vp.x, savedY = vp.y;\n    vp.x = savedX - dx;\n    vp.y = savedY - dy;\n    var node;\n    try {\n      _runInnerDocumentPrePasses(doc);\n      node = capture(doc.documentElement);\n    } catch (e) {\n      node = void 0;\n    } finally {\n      vp.x = savedX;\n      vp.y = savedY;\n    }\n    if (node == null) return void 0;\n    var canvasColor = _resolveIframeCanvasColor(doc);\n    if (canvasColor != null) {\n      node.styles.backgroundColor = canvasColor;\n      var vpW = doc.documentElement.clientWidth || node.width;\n      var vpH = doc.documentElement.clientHeight || node.height;\n      if (node.width < vpW) node.width = vpW;\n      if (node.height < vpH) node.height = vpH;\n    }\n    return node;\n  }\n  function _isOpaqueColor(c) {\n    return c != null && c !== \"\" && c !== \"transparent\" && !/,\\s*0\\s*\\)\\s*$/.test(c);\n  }\n  function _resolveIframeCanvasColor(doc) {\n    var htmlBg = getComputedStyle(doc.documentElement).backgroundColor;\n    if (_isOpaqueColor(htmlBg)) return normColor(htmlBg);\n    var bodyBg = doc.body != null ? getComputedStyle(doc.body).backgroundColor : null;\n    if (_isOpaqueColor(bodyBg)) return normColor(bodyBg);\n    return null;\n  }\n  function _runInnerDocumentPrePasses(doc) {\n    var rootEl = doc.documentElement;\n    var allEls = rootEl.getElementsByTagName(\"*\");\n    for (var i = 0; i < allEls.length; i++) {\n      var el = allEls[i];\n      var pos = getComputedStyle(el).position;\n      if (pos !== \"fixed\" && pos !== \"sticky\") continue;\n      var r = el.getBoundingClientRect();\n      if (r.right < vp.x || r.bottom < vp.y || r.left > vp.x + vp.width || r.top > vp.y + vp.height) continue;\n      var cur = el.parentElement;\n      while (cur != null && cur !== rootEl.parentElement) {\n        if (_fixedAncestors.has(cur)) break;\n        _fixedAncestors.add(cur);\n        cur = cur.parentElement;\n      }\n    }\n    for (var t = 0; t < allEls.length; t++) {\n      var tel = allEls[t];\n      var tt = getComputedStyle(tel).transform;\n      if (tt === \"none\" || tt === \"\") continue;\n      _transformInfluenced.add(tel);\n      var tdescs = tel.getElementsByTagName(\"*\");\n      for (var td = 0; td < tdescs.length; td++) _transformInfluenced.add(tdescs[td]);\n    }\n    _counterPreWalk(rootEl);\n    _runCounterStylePrewalk(doc);\n  }\n  const root = document.querySelector(sel);\n  if (!root) return { tree: [], warnings: [] };\n  const _fixedAncestors = /* @__PURE__ */ new Set();\n  const _allEls = root.getElementsByTagName(\"*\");\n  for (let _i = 0; _i < _allEls.length; _i++) {\n    const _el = _allEls[_i];\n    const _pos = getComputedStyle(_el).position;\n    if (_pos !== \"fixed\" && _pos !== \"sticky\") continue;\n    const _r = _el.getBoundingClientRect();\n    const _outside = _r.right < vp.x || _r.bottom < vp.y || _r.left > vp.x + vp.width || _r.top > vp.y + vp.height;\n    if (_outside) continue;\n    let _cur = _el.parentElement;\n    while (_cur != null && _cur !== root.parentElement) {\n      if (_fixedAncestors.has(_cur)) break;\n      _fixedAncestors.add(_cur);\n      _cur = _cur.parentElement;\n    }\n  }\n  const _transformInfluenced = /* @__PURE__ */ new Set();\n  for (let _ti = 0; _ti < _allEls.length; _ti++) {\n    const _tel = _allEls[_ti];\n    const _tt = getComputedStyle(_tel).transform;\n    if (_tt === \"none\" || _tt === \"\") continue;\n    _transformInfluenced.add(_tel);\n    const _tdescs = _tel.getElementsByTagName(\"*\");\n    for (let _tj = 0; _tj < _tdescs.length; _tj++) {\n      _transformInfluenced.add(_tdescs[_tj]);\n    }\n  }\n  const _transformRelatedBox = /* @__PURE__ */ new WeakMap();\n  const _transformRelatedWillChange = /* @__PURE__ */ new Set([\n    \"transform\",\n    \"transform-style\",\n    \"perspective\",\n    \"translate\",\n    \"rotate\",\n    \"scale\",\n    \"offset-path\",\n    \"offset-position\"\n  ]);\n  const _hasTransformRelatedSignal = (_cs) => {\n    if (_cs.transform != null && _cs.transform !== \"\" && _cs.transform !== \"none\" || _cs.translate != null && _cs.translate !== \"\" && _cs.translate !== \"none\" || _cs.rotate != null && _cs.rotate !== \"\" && _cs.rotate !== \"none\" || _cs.scale != null && _cs.scale !== \"\" && _cs.scale !== \"none\" || _cs.transformStyle === \"preserve-3d\" || _cs.perspective != null && _cs.perspective !== \"\" && _cs.perspective !== \"none\") return true;\n    if (_cs.willChange == null || _cs.willChange === \"\" || _cs.willChange === \"auto\") return false;\n    const _tokens = _cs.willChange.split(/[\\s,]+/);\n    for (let _wi = 0; _wi < _tokens.length; _wi++) {\n      if (_transformRelatedWillChange.has(_tokens[_wi].toLowerCase())) return true;\n    }\n    return false;\n  };\n  const _ownershipEls = [root, ...Array.from(_allEls)];\n  let _ownershipAncestor = root.parentElement;\n  while (_ownershipAncestor != null) {\n    _ownershipEls.push(_ownershipAncestor);\n    _ownershipAncestor = _ownershipAncestor.parentElement;\n  }\n  const _probeUnsupportedTags = /^(?:AUDIO|CANVAS|EMBED|IFRAME|IMG|INPUT|METER|OBJECT|PROGRESS|SELECT|TEXTAREA|VIDEO)$/;\n  for (let _oi = 0; _oi < _ownershipEls.length; _oi++) {\n    const _owner = _ownershipEls[_oi];\n    const _ownerStyle = getComputedStyle(_owner);\n    if (!_hasTransformRelatedSignal(_ownerStyle)) continue;\n    if (_owner.namespaceURI === \"http://www.w3.org/2000/svg\" || _probeUnsupportedTags.test(_owner.tagName)) continue;\n    const _probeHost = document.createElement(\"span\");\n    _probeHost.setAttribute(\"aria-hidden\", \"true\");\n    _probeHost.style.setProperty(\"all\", \"initial\", \"important\");\n    _probeHost.style.setProperty(\"display\", _ownerStyle.display, \"important\");\n    _probeHost.style.setProperty(\"perspective\", \"1px\", \"important\");\n    _probeHost.style.setProperty(\"visibility\", \"hidden\", \"important\");\n    _probeHost.style.setProperty(\"width\", \"0\", \"important\");\n    _probeHost.style.setProperty(\"height\", \"0\", \"important\");\n    _probeHost.style.setProperty(\"margin\", \"0\", \"important\");\n    _probeHost.style.setProperty(\"padding\", \"0\", \"important\");\n    _probeHost.style.setProperty(\"border\", \"0\", \"important\");\n    const _probe = document.createElement(\"i\");\n    _probe.setAttribute(\"aria-hidden\", \"true\");\n    _probe.style.setProperty(\"all\", \"initial\", \"important\");\n    _probe.style.setProperty(\"position\", \"fixed\", \"important\");\n    _probe.style.setProperty(\"width\", \"0\", \"important\");\n    _probe.style.setProperty(\"height\", \"0\", \"important\");\n    _probeHost.appendChild(_probe);\n    try {\n      (document.body || document.documentElement).appendChild(_probeHost);\n      _transformRelatedBox.set(_owner, _probe.offsetParent === _probeHost);\n    } catch (_e) {\n    } finally {\n      _probeHost.remove();\n    }\n  }\n  const _projectiveFacts = Array.isArray(args.pq) ? args.pq : [];\n  const _projectiveDomNodes = typeof args.pqk === \"string\" && Array.isArray(globalThis[args.pqk]) ? globalThis[args.pqk] : [];\n  const _projectiveNodeIndex = /* @__PURE__ */ new WeakMap();\n  const _projectedQuads = /* @__PURE__ */ new WeakMap();\n  const _projectiveAbsH = /* @__PURE__ */ new WeakMap();\n  for (let _pi = 0; _pi < _projectiveFacts.length; _pi++) {\n    const _fact = _projectiveFacts[_pi];\n    const _pel = _projectiveDomNodes[_pi];\n    if (_pel == null || _fact == null) continue;\n    _projectiveNodeIndex.set(_pel, _pi);\n    if (_fact.role === \"svg-graphics\") continue;\n    const _values = _fact.borderQuad || _fact.quad;\n    if (!Array.isArray(_values) || _values.length !== 8) continue;\n    _projectedQuads.set(_pel, [\n      { x: _values[0], y: _values[1] },\n      { x: _values[2], y: _values[3] },\n      { x: _values[4], y: _values[5] },\n      { x: _values[6], y: _values[7] }\n    ]);\n  }\n  const _nonAffineProjectiveRoots = /* @__PURE__ */ new Set();\n  for (const _ownerIndex of selectProjectiveRasterOwnerIndexes(_projectiveFacts)) {\n    const _owner = _projectiveDomNodes[_ownerIndex];\n    if (_owner != null) _nonAffineProjectiveRoots.add(_owner);\n  }\n  const _invertH = (m) => {\n    const [a, b, c, d, e, f, g, h, i] = m;\n    const A = e * i - f * h, B = c * h - b * i, C = b * f - c * e;\n    const D = f * g - d * i, E = a * i - c * g, F = c * d - a * f;\n    const G = d * h - e * g, H = b * g - a * h, I = a * e - b * d;\n    const det = a * A + b * D + c * G;\n    if (!isFinite(det) || Math.abs(det) < 1e-12) return null;\n    return [A / det, B / det, C / det, D / det, E / det, F / det, G / det, H / det, I / det];\n  };\n  const _mulH = (a, b) => [\n    a[0] * b[0] + a[1] * b[3] + a[2] * b[6],\n    a[0] * b[1] + a[1] * b[4] + a[2] * b[7],\n    a[0] * b[2] + a[1] * b[5] + a[2] * b[8],\n    a[3] * b[0] + a[4] * b[3] + a[5] * b[6],\n    a[3] * b[1] + a[4] * b[4] + a[5] * b[7],\n    a[3] * b[2] + a[4] * b[5] + a[5] * b[8],\n    a[6] * b[0] + a[7] * b[3] + a[8] * b[6],\n    a[6] * b[1] + a[7] * b[4] + a[8] * b[7],\n    a[6] * b[2] + a[7] * b[5] + a[8] * b[8]\n  ];\n  const _homographyForRect = (rect, q) => {\n    const x = rect.left - vp.x, y = rect.top - vp.y, w = rect.width, h = rect.height;\n    if (w <= 0 || h <= 0) return null;\n    const a = (q[1].x - q[0].x) / w, d = (q[1].y - q[0].y) / w;\n    const b = (q[3].x - q[0].x) / h, e = (q[3].y - q[0].y) / h;\n    return [a, b, q[0].x - a * x - b * y, d, e, q[0].y - d * x - e * y, 0, 0, 1];\n  };\n  const _animInfluenced = /* @__PURE__ */ new Set();\n  for (let _ai = 0; _ai < _allEls.length; _ai++) {\n    const _ael = _allEls[_ai];\n    if (_ael.dataset == null || _ael.dataset.domotionAnim == null || _ael.dataset.domotionAnim === \"\") continue;\n    _animInfluenced.add(_ael);\n    const _adescs = _ael.getElementsByTagName(\"*\");\n    for (let _aj = 0; _aj < _adescs.length; _aj++) _animInfluenced.add(_adescs[_aj]);\n  }\n  const _cumulativeZoom = /* @__PURE__ */ new Map();\n  const _effectiveZoomFor = (el) => {\n    if (el == null) return 1;\n    const hit = _cumulativeZoom.get(el);\n    if (hit != null) return hit;\n    const parentZoom = _effectiveZoomFor(el.parentElement);\n    const own = parseFloat(getComputedStyle(el).zoom);\n    const zoom = parentZoom * (Number.isFinite(own) && own > 0 ? own : 1);\n    _cumulativeZoom.set(el, zoom);\n    return zoom;\n  };\n  const _backgroundAttachmentAxisScale = (_tt) => {\n    if (_tt == null || _tt === \"none\" || _tt === \"\") return [1, 1];\n    const _m2 = /^matrix\\(\\s*([-\\d.eE+]+)\\s*,\\s*([-\\d.eE+]+)\\s*,\\s*([-\\d.eE+]+)\\s*,\\s*([-\\d.eE+]+)/.exec(_tt);\n    let _sa = 1, _sd = 1;\n    if (_m2 != null) {\n      _sa = parseFloat(_m2[1]);\n      _sd = parseFloat(_m2[4]);\n    } else {\n      const _m3 = /^matrix3d\\(([^)]+)\\)/.exec(_tt);\n      if (_m3 != null) {\n        const _parts = _m3[1].split(\",\");\n        _sa = parseFloat(_parts[0]);\n        _sd = parseFloat(_parts[5]);\n      }\n    }\n    if (!isFinite(_sa) || !isFinite(_sd)) return [1, 1];\n    const _sx = Math.abs(_sa) > 0 ? Math.abs(_sa) : 1;\n    const _sy = Math.abs(_sd) > 0 ? Math.abs(_sd) : 1;\n    return [_sx, _sy];\n  };\n  const _backgroundAttachmentPaintScale = /* @__PURE__ */ new WeakMap();\n  const _backgroundAttachmentPaintScaleFor = (el) => {\n    if (el == null) return [1, 1];\n    const _hit = _backgroundAttachmentPaintScale.get(el);\n    if (_hit != null) return _hit;\n    const _parent = _backgroundAttachmentPaintScaleFor(el.parentElement);\n    const _styleWindow = el.ownerDocument?.defaultView ?? window;\n    const _style = _styleWindow.getComputedStyle(el);\n    const _effectiveTransform = composeEffectiveTransform(_style);\n    const _ownScale = transformHasRotationOrSkew(_effectiveTransform) ? [1, 1] : _backgroundAttachmentAxisScale(_effectiveTransform);\n    const _ownZoom = parseFloat(_style.zoom);\n    const _zoom = Number.isFinite(_ownZoom) && _ownZoom > 0 ? _ownZoom : 1;\n    const _resolved = [\n      _parent[0] * _ownScale[0] * _zoom,\n      _parent[1] * _ownScale[1] * _zoom\n    ];\n    _backgroundAttachmentPaintScale.set(el, _resolved);\n    return _resolved;\n  };\n  const _counterSnapshot = /* @__PURE__ */ new WeakMap();\n  function _parseCounterDecl(declStr, defaultValue) {\n    if (!declStr || declStr === \"none\") return [];\n    const tokens = declStr.split(/\\s+/);\n    const out = [];\n    let i = 0;\n    while (i < tokens.length) {\n      const name = tokens[i++];\n      if (!name) continue;\n      let value = defaultValue;\n      if (i < tokens.length && /^-?\\d+$/.test(tokens[i])) {\n        value = parseInt(tokens[i++], 10);\n      }\n      out.push({ name, value });\n    }\n    return out;\n  }\n  const _counterStacks = /* @__PURE__ */ new Map();\n  const _isAncestorOrSelf = (ancestor, node) => ancestor === node || ancestor.contains(node);\n  function _stack(name) {\n    let stack = _counterStacks.get(name);\n    if (stack == null) {\n      stack = [];\n      _counterStacks.set(name, stack);\n    }\n    return stack;\n  }\n  function _removeStale(name, el) {\n    const stack = _stack(name);\n    while (stack.length > 0) {\n      const parent = stack[stack.length - 1].scopeParent;\n      if (parent == null || _isAncestorOrSelf(parent, el)) break;\n      stack.pop();\n    }\n  }\n  function _findInnermost(name) {\n    const stack = _stack(name);\n    return stack.length ? stack[stack.length - 1] : null;\n  }\n  function _snapshotCounters() {\n    const result2 = [];\n    for (const [name, stack] of _counterStacks) for (const entry2 of stack) result2.push({ name, value: entry2.value });\n    return result2;\n  }\n  function _applyCounterStyle(owner, scopeParent, style) {\n    const touched = /* @__PURE__ */ new Set();\n    const resets = _parseCounterDecl(style.counterReset, 0);\n    const increments = _parseCounterDecl(style.counterIncrement, 1);\n    const sets = _parseCounterDecl(style.counterSet, 0);\n    for (const item of [...resets, ...increments, ...sets]) touched.add(item.name);\n    for (const name of touched) _removeStale(name, owner);\n    for (const { name, value } of resets) {\n      const stack = _stack(name);\n      if (stack.length && stack[stack.length - 1].scopeParent === scopeParent) stack.pop();\n      stack.push({ name, value, owner, scopeParent });\n    }\n    for (const { name, value } of increments) {\n      const current = _findInnermost(name);\n      if (current) current.value += value;\n      else _stack(name).push({ name, value, owner, scopeParent });\n    }\n    for (const { name, value } of sets) {\n      const current = _findInnermost(name);\n      if (current) current.value = value;\n      else _stack(name).push({ name, value, owner, scopeParent });\n    }\n    return touched;\n  }\n  function _counterPreWalk(el) {\n    const cs = window.getComputedStyle(el);\n    const touched = _applyCounterStyle(el, el.parentElement, cs);\n    const beforeStyle = window.getComputedStyle(el, \"::before\");\n    for (const name of _applyCounterStyle(el, el, beforeStyle)) touched.add(name);\n    const snapshots = { element: _snapshotCounters(), \"::before\": _snapshotCounters(), \"::after\": null };\n    for (const child of el.children) _counterPreWalk(child);\n    const afterStyle = window.getComputedStyle(el, \"::after\");\n    for (const name of _applyCounterStyle(el, el, afterStyle)) touched.add(name);\n    snapshots[\"::after\"] = _snapshotCounters();\n    _counterSnapshot.set(el, snapshots);\n    for (const name of touched) {\n      const stack = _stack(name);\n      if (stack.length < 2 || stack[stack.length - 1].owner !== el) continue;\n      const previous = stack[stack.length - 2].owner;\n      if (previous instanceof Element && previous.contains(el)) stack.pop();\n    }\n  }\n  _counterPreWalk(root);\n  _runCounterStylePrewalk();\n  const result = [];\n  const rootCs = window.getComputedStyle(root);\n  const rootHasBorder = (parseFloat(rootCs.borderTopWidth) || 0) > 0 || (parseFloat(rootCs.borderRightWidth) || 0) > 0 || (parseFloat(rootCs.borderBottomWidth) || 0) > 0 || (parseFloat(rootCs.borderLeftWidth) || 0) > 0;\n  const rootBg = rootCs.backgroundColor;\n  const rootBgImage = rootCs.backgroundImage;\n  const rootHasBgImage = rootBgImage != null && rootBgImage !== \"none\" && rootBgImage !== \"\";\n  const rootHasBg = rootBg != null && rootBg !== \"rgba(0, 0, 0, 0)\" && rootBg !== \"transparent\" || rootHasBgImage;\n  let rootHasDirectText = false;\n  for (const node of root.childNodes) {\n    if (node.nodeType === Node.TEXT_NODE && (node.textContent || \"\").trim() !== \"\") {\n      rootHasDirectText = true;\n      break;\n    }\n  }\n  if (rootHasBorder || rootHasBg || rootHasDirectText || _nonAffineProjectiveRoots.has(root)) {\n    const c = capture(root);\n    if (c) result.push(c);\n  } else {\n    for (const child of root.children) {\n      const c = capture(child);\n      if (c) result.push(c);\n    }\n  }\n  if (_maskDefs.size > 0 && result.length > 0) {\n    result[0].maskDefs = Array.from(_maskDefs.values());\n  }\n  if (_clipPathDefs.size > 0 && result.length > 0) {\n    result[0].clipPathDefs = Array.from(_clipPathDefs.values());\n  }\n  if (_filterDefs.size > 0 && result.length > 0) {\n    result[0].filterDefs = Array.from(_filterDefs.values());\n  }\n  if (_maskRasters.size > 0 && result.length > 0) {\n    var rasterArr = [];\n    for (var entry of _maskRasters.values()) {\n      if (entry != null) rasterArr.push(entry);\n    }\n    if (rasterArr.length > 0) result[0].maskRasters = rasterArr;\n  }\n  if (result.length > 0) {\n    try {\n      var _rootScrollbarOwner = document.scrollingElement;\n      var _rootScrollbarRecord = _rootScrollbarOwner != null && typeof args.sk === \"string\" && args.sk !== \"\" ? _rootScrollbarOwner[args.sk] : void 0;\n      if (_rootScrollbarRecord != null) result[0].rootScrollbars = _rootScrollbarRecord;\n      var _isDark = window.matchMedia(\"(prefers-color-scheme: dark)\").matches;\n      result[0].styles.rootColorScheme = _isDark ? \"dark\" : \"light\";\n      var _docCs = window.getComputedStyle(document.documentElement);\n      result[0].styles.rootBgComputed = _docCs.backgroundColor;\n      result[0].styles.rootOverflowX = _docCs.overflowX;\n      result[0].styles.rootOverflowY = _docCs.overflowY;\n    } catch (_e) {\n    }\n  }\n  return { tree: result, warnings: _warnings };\n};\nreturn ((args) => {\n  const colorNorm = createColorNorm();\n  try {\n    return captureDocumentTree(args, colorNorm);\n  } finally {\n    colorNorm.dispose();\n  }\n});\n})()\n";
+export const CAPTURE_SCRIPT: string = "\n(() => {\n// src/capture/script/color-norm.ts\nvar createColorNorm = () => {\n  const probe = document.createElement(\"div\");\n  probe.style.position = \"absolute\";\n  probe.style.visibility = \"hidden\";\n  document.body.appendChild(probe);\n  const normColor = (c, elColor) => {\n    if (c == null || c === \"\" || c === \"transparent\" || c === \"currentcolor\" || c === \"auto\") return c;\n    if (/^(rgba?\\(|#[0-9a-f]{3,8}$)/i.test(c)) return c;\n    var probeIn = c;\n    if (elColor != null && elColor !== \"\" && /\\bcurrentcolor\\b/i.test(c)) {\n      probeIn = c.replace(/\\bcurrentcolor\\b/gi, elColor);\n    }\n    try {\n      probe.style.color = \"\";\n      probe.style.color = \"color-mix(in srgb, \" + probeIn + \" 100%, transparent 0%)\";\n      const v = getComputedStyle(probe).color;\n      if (v != null && v !== \"\") return v;\n    } catch (e) {\n    }\n    return c;\n  };\n  const normGradientColors = (text, elColor) => {\n    if (text == null || text === \"\" || text === \"none\") return text;\n    const fnRe = /\\b(oklch|oklab|lab|lch|hwb|hsl|hsla|color|color-mix)\\(/gi;\n    var out = \"\";\n    var i = 0;\n    while (i < text.length) {\n      fnRe.lastIndex = i;\n      const m = fnRe.exec(text);\n      if (m == null) {\n        out += text.slice(i);\n        break;\n      }\n      out += text.slice(i, m.index);\n      var depth = 1;\n      var j = m.index + m[0].length;\n      while (j < text.length && depth > 0) {\n        const ch = text[j++];\n        if (ch === \"(\") depth++;\n        else if (ch === \")\") depth--;\n      }\n      const call = text.slice(m.index, j);\n      out += normColor(call, elColor);\n      i = j;\n    }\n    return out;\n  };\n  const dispose = () => {\n    probe.remove();\n  };\n  return { normColor, normGradientColors, dispose };\n};\n\n// src/capture/script/emoji-detect.ts\nvar RE_EMOJI = /\\p{Emoji}/u;\nvar RE_EMOJI_PRESENTATION = /\\p{Emoji_Presentation}/u;\nvar RE_EMOJI_MODIFIER_BASE = /\\p{Emoji_Modifier_Base}/u;\nvar RE_EMOJI_MODIFIER = /\\p{Emoji_Modifier}/u;\nvar RE_REGIONAL_INDICATOR = /\\p{Regional_Indicator}/u;\nvar emojiCategory = (cp) => {\n  const ch = String.fromCodePoint(cp);\n  if (cp <= 127) return cp === 35 || cp === 42 || cp >= 48 && cp <= 57 ? \"keycap\" : \"other\";\n  if (cp === 8419) return \"keycap-mark\";\n  if (cp === 8416) return \"circle-backslash\";\n  if (cp === 8205) return \"zwj\";\n  if (cp === 65038) return \"vs15\";\n  if (cp === 65039) return \"vs16\";\n  if (cp === 127988) return \"tag-base\";\n  if (cp >= 917536 && cp <= 917630) return \"tag-sequence\";\n  if (cp === 917631) return \"tag-term\";\n  if (RE_EMOJI_MODIFIER_BASE.test(ch)) return \"modifier-base\";\n  if (RE_EMOJI_MODIFIER.test(ch)) return \"modifier\";\n  if (RE_REGIONAL_INDICATOR.test(ch)) return \"regional-indicator\";\n  if (RE_EMOJI_PRESENTATION.test(ch)) return \"emoji-default\";\n  if (RE_EMOJI.test(ch)) return \"text-default\";\n  return \"other\";\n};\nvar isAnyEmoji = (cat) => cat === \"text-default\" || cat === \"emoji-default\" || cat === \"keycap\" || cat === \"modifier-base\" || cat === \"tag-base\";\nvar scanEmojiPresentation = (text, classify = emojiCategory) => {\n  const units = [];\n  for (let i2 = 0; i2 < text.length; ) {\n    const cp = text.codePointAt(i2);\n    const ch = String.fromCodePoint(cp);\n    units.push({ start: i2, end: i2 + ch.length, cat: classify(cp) });\n    i2 += ch.length;\n  }\n  const spans = [];\n  const push = (startUnit, endUnit, presentation, hasVs) => spans.push({\n    start: units[startUnit].start,\n    end: units[endUnit - 1].end,\n    presentation,\n    hasVs\n  });\n  const elementEnd = (at) => {\n    if (at >= units.length || !isAnyEmoji(units[at].cat)) return at;\n    if (at + 1 < units.length && units[at + 1].cat === \"vs16\") return at + 2;\n    if (units[at].cat === \"modifier-base\" && at + 1 < units.length && units[at + 1].cat === \"modifier\") return at + 2;\n    return at + 1;\n  };\n  let i = 0;\n  while (i < units.length) {\n    const c = units[i].cat;\n    if (isAnyEmoji(c) && i + 1 < units.length && units[i + 1].cat === \"vs15\") {\n      let end2 = i + 2;\n      if (c === \"keycap\" && end2 < units.length && units[end2].cat === \"keycap-mark\") end2++;\n      push(i, end2, \"text\", true);\n      i = end2;\n      continue;\n    }\n    let end = 0;\n    let hasVs = false;\n    if (isAnyEmoji(c) && i + 1 < units.length && units[i + 1].cat === \"vs16\") {\n      end = i + 2;\n      hasVs = true;\n      if (c === \"keycap\" && end < units.length && units[end].cat === \"keycap-mark\") end++;\n    } else if (c === \"modifier-base\" && i + 1 < units.length && units[i + 1].cat === \"modifier\") {\n      end = i + 2;\n    } else if (c === \"regional-indicator\" && i + 1 < units.length && units[i + 1].cat === \"regional-indicator\") {\n      end = i + 2;\n    } else if (c === \"tag-base\") {\n      let j = i + 1;\n      while (j < units.length && units[j].cat === \"tag-sequence\") j++;\n      if (j > i + 1 && j < units.length && units[j].cat === \"tag-term\") end = j + 1;\n      else end = i + 1;\n    } else if (isAnyEmoji(c) && i + 1 < units.length && units[i + 1].cat === \"circle-backslash\") {\n      end = i + 2;\n    } else if (c === \"emoji-default\" || c === \"tag-base\" || c === \"modifier-base\") {\n      end = i + 1;\n    }\n    const firstElementEnd = elementEnd(i);\n    if (firstElementEnd > i) {\n      let j = firstElementEnd;\n      let joined = false;\n      while (j + 1 < units.length && units[j].cat === \"zwj\") {\n        const nextEnd = elementEnd(j + 1);\n        if (nextEnd === j + 1) break;\n        joined = true;\n        j = nextEnd;\n      }\n      if (joined) {\n        end = j;\n        hasVs = false;\n      }\n    }\n    if (end > i) {\n      push(i, end, \"emoji\", hasVs);\n      i = end;\n      continue;\n    }\n    i++;\n  }\n  return spans;\n};\nvar createEmojiDetect = () => {\n  const rasterCandidates = (text, fontVariantEmoji = \"normal\") => {\n    const spans = scanEmojiPresentation(text);\n    if (fontVariantEmoji != null && fontVariantEmoji !== \"normal\" && fontVariantEmoji !== \"unicode\") {\n      const covered = /* @__PURE__ */ new Set();\n      for (const span of spans) for (let i = span.start; i < span.end; i++) covered.add(i);\n      for (let i = 0; i < text.length; ) {\n        const cp = text.codePointAt(i);\n        const ch = String.fromCodePoint(cp);\n        const next = i + ch.length < text.length ? text.codePointAt(i + ch.length) : 0;\n        if (!covered.has(i) && RE_EMOJI.test(ch) && next !== 65038 && next !== 65039) {\n          spans.push({ start: i, end: i + ch.length, presentation: fontVariantEmoji, hasVs: false });\n        } else if (fontVariantEmoji === \"text\") {\n          const span = spans.find((s) => s.start === i);\n          if (span != null && !span.hasVs) span.presentation = \"text\";\n        }\n        i += ch.length;\n      }\n    }\n    const byStart = new Map(spans.map((span) => [span.start, span]));\n    const candidates = [];\n    const segmenter = typeof Intl !== \"undefined\" && Intl.Segmenter != null ? new Intl.Segmenter(void 0, { granularity: \"grapheme\" }) : null;\n    if (segmenter != null) {\n      for (const part of segmenter.segment(text)) {\n        if (/^\\s+$/u.test(part.segment)) continue;\n        const source = byStart.get(part.index);\n        candidates.push(source ?? { start: part.index, end: part.index + part.segment.length, presentation: \"text\", hasVs: false });\n      }\n    } else {\n      for (let i = 0; i < text.length; ) {\n        const cp = text.codePointAt(i);\n        const ch = String.fromCodePoint(cp);\n        if (!/^\\s+$/u.test(ch)) candidates.push(byStart.get(i) ?? { start: i, end: i + ch.length, presentation: \"text\", hasVs: false });\n        i += ch.length;\n      }\n    }\n    return candidates;\n  };\n  const textNeedsRaster = (text, _font = \"\", fontVariantEmoji = \"normal\") => {\n    const spans = scanEmojiPresentation(text);\n    if (fontVariantEmoji === \"emoji\") return spans.length > 0 || [...text].some((ch) => RE_EMOJI.test(ch));\n    return spans.length > 0;\n  };\n  return { rasterCandidates, textNeedsRaster };\n};\n\n// src/capture/script/dotted-circle-detect.ts\nvar dottedCircleInkMatches = (bare, comb) => {\n  const ratio = comb.cnt > 0 ? bare.cnt / comb.cnt : 0;\n  let union = 0, xor = 0;\n  for (let i = 0; i < bare.mask.length; i++) {\n    if (bare.mask[i] || comb.mask[i]) union++;\n    if (bare.mask[i] !== comb.mask[i]) xor++;\n  }\n  const mismatch = union > 0 ? xor / union : 1;\n  return bare.cnt > 20 && ratio > 0.9 && comb.w <= bare.w * 1.25 && mismatch < 0.12;\n};\nvar isDottedCircleProbeCandidate = (ch) => /\\p{M}|\\p{Lo}|\\p{Lm}/u.test(ch);\nvar createDottedCircleDetect = () => {\n  let _cv = null;\n  let _ctx = null;\n  const _cache = /* @__PURE__ */ new Map();\n  const inkStats = (s, font) => {\n    if (_ctx == null) {\n      _cv = document.createElement(\"canvas\");\n      _cv.width = 96;\n      _cv.height = 64;\n      _ctx = _cv.getContext(\"2d\", { willReadFrequently: true });\n    }\n    _ctx.clearRect(0, 0, 96, 64);\n    _ctx.fillStyle = \"#000\";\n    _ctx.textBaseline = \"middle\";\n    _ctx.font = \"32px \" + font;\n    _ctx.fillText(s, 40, 32);\n    const data = _ctx.getImageData(0, 0, 96, 64).data;\n    let cnt = 0, minx = 1e9, maxx = -1;\n    const mask = new Uint8Array(96 * 64);\n    for (let y = 0; y < 64; y++) {\n      for (let x = 0; x < 96; x++) {\n        if (data[(y * 96 + x) * 4 + 3] > 20) {\n          mask[y * 96 + x] = 1;\n          cnt++;\n          if (x < minx) minx = x;\n          if (x > maxx) maxx = x;\n        }\n      }\n    }\n    return { cnt, w: cnt > 0 ? maxx - minx + 1 : 0, mask };\n  };\n  const markGetsDottedCircle = (cp, ch, font) => {\n    if (font == null || font === \"\") return false;\n    if (!isDottedCircleProbeCandidate(ch)) return false;\n    const key = cp + \"|\" + font;\n    const hit = _cache.get(key);\n    if (hit !== void 0) return hit;\n    let res = false;\n    try {\n      const bare = inkStats(ch, font);\n      const comb = inkStats(\"\\u25CC\" + ch, font);\n      res = dottedCircleInkMatches(bare, comb);\n    } catch (e) {\n      res = false;\n    }\n    _cache.set(key, res);\n    return res;\n  };\n  return { markGetsDottedCircle };\n};\n\n// src/capture/script/font-metrics.ts\nvar createFontMetrics = () => {\n  const metricsCache = /* @__PURE__ */ new Map();\n  const localFaceMap = /* @__PURE__ */ new Map();\n  const probeWidthCS = (familyExpr, weight, style) => {\n    const span = document.createElement(\"span\");\n    span.style.cssText = \"position:absolute;left:-9999px;top:-9999px;visibility:hidden;font-size:16px;line-height:1;white-space:pre\";\n    span.style.fontFamily = familyExpr;\n    span.style.fontWeight = weight;\n    span.style.fontStyle = style;\n    span.textContent = \"mIw0\";\n    document.body.appendChild(span);\n    const w = span.getBoundingClientRect().width;\n    document.body.removeChild(span);\n    return w;\n  };\n  for (const sheet of Array.from(document.styleSheets)) {\n    let cssRules;\n    try {\n      cssRules = sheet.cssRules;\n    } catch (e) {\n      continue;\n    }\n    for (const rule of Array.from(cssRules)) {\n      if (rule.constructor.name !== \"CSSFontFaceRule\") continue;\n      const r = rule;\n      const family = r.style.getPropertyValue(\"font-family\").trim().replace(/^[\"']|[\"']$/g, \"\").toLowerCase();\n      const weight = r.style.getPropertyValue(\"font-weight\") || \"400\";\n      const styleDesc = r.style.getPropertyValue(\"font-style\") || \"normal\";\n      const src = r.style.getPropertyValue(\"src\");\n      if (family === \"\" || /url\\(/.test(src)) continue;\n      const matches = src.match(/local\\(\\s*[\"']?[^\"')]+?[\"']?\\s*\\)/g);\n      if (matches == null) continue;\n      const locals = [];\n      for (const mm of matches) {\n        const inner = /local\\(\\s*[\"']?([^\"')]+?)[\"']?\\s*\\)/.exec(mm);\n        if (inner != null) locals.push(inner[1].trim());\n      }\n      if (locals.length === 0) continue;\n      const stripVariant = (n) => n.replace(/\\s+(Bold Italic|Italic Bold|Bold|Italic|Oblique|Regular|Light|Medium|Semibold|Black)$/i, \"\").trim();\n      let resolved = null;\n      const aliasW = probeWidthCS('\"' + family + '\"', weight, styleDesc);\n      for (const cand of locals) {\n        const candW = probeWidthCS('\"' + stripVariant(cand) + '\"', weight, styleDesc);\n        if (Math.abs(candW - aliasW) < 0.05) {\n          resolved = cand;\n          break;\n        }\n      }\n      if (resolved == null) resolved = locals[0];\n      if (!localFaceMap.has(family)) localFaceMap.set(family, resolved);\n    }\n  }\n  const substituteAliasedFamilies = (ff) => {\n    if (localFaceMap.size === 0) return ff;\n    const parts = ff.split(\",\").map((s) => s.trim());\n    let changed = false;\n    const out = parts.map((p) => {\n      const bare = p.replace(/^[\"']|[\"']$/g, \"\").toLowerCase();\n      const local = localFaceMap.get(bare);\n      if (local == null) return p;\n      changed = true;\n      return /\\s/.test(local) ? '\"' + local + '\"' : local;\n    });\n    return changed ? out.join(\", \") : ff;\n  };\n  const measureFontMetrics = (cs, fontSizeOverride) => {\n    const fs = cs.fontStyle || \"normal\";\n    const fw = cs.fontWeight || \"400\";\n    const fz = fontSizeOverride || cs.fontSize || \"14px\";\n    const ff = substituteAliasedFamilies(cs.fontFamily || \"sans-serif\");\n    const key = fs + \"|\" + fw + \"|\" + fz + \"|\" + ff;\n    let v = metricsCache.get(key);\n    if (v != null) return v;\n    const c = document.createElement(\"canvas\");\n    const ctx = c.getContext(\"2d\");\n    ctx.font = fs + \" \" + fw + \" \" + fz + \" \" + ff;\n    const m = ctx.measureText(\"Mxgp\");\n    v = { ascent: m.fontBoundingBoxAscent, descent: m.fontBoundingBoxDescent };\n    metricsCache.set(key, v);\n    return v;\n  };\n  return { measureFontMetrics, substituteAliasedFamilies };\n};\n\n// src/capture/script/utils.ts\nvar isUnsetCssValue = (v) => v === \"\" || v === \"initial\" || v === \"inherit\" || v === \"unset\" || v === \"revert\";\nvar hasCssValue = (v) => v != null && v !== \"\" && v !== \"none\";\nvar xmlMarkup = (el) => el.outerHTML.replace(/&nbsp;/g, \"&#160;\");\nvar extractCssUrl = (value) => {\n  const u = /\\burl\\(\\s*(?:\"((?:\\\\.|[^\"\\\\])*)\"|'((?:\\\\.|[^'\\\\])*)'|([^)\\s]+))\\s*\\)/.exec(value || \"\");\n  if (u == null) return null;\n  const raw = u[1] || u[2] || u[3] || \"\";\n  if (raw === \"\") return null;\n  return raw.replace(/\\\\(.)/g, \"$1\");\n};\nvar sideWidths = (cs, prop, suffix) => ({\n  top: parseFloat(cs[prop + \"Top\" + suffix]) || 0,\n  right: parseFloat(cs[prop + \"Right\" + suffix]) || 0,\n  bottom: parseFloat(cs[prop + \"Bottom\" + suffix]) || 0,\n  left: parseFloat(cs[prop + \"Left\" + suffix]) || 0\n});\nvar NAMED_COLOR_ALTERNATION = \"lightgoldenrodyellow|mediumspringgreen|mediumaquamarine|mediumslateblue|mediumturquoise|mediumvioletred|blanchedalmond|cornflowerblue|darkolivegreen|lightslategray|lightslategrey|lightsteelblue|mediumseagreen|darkgoldenrod|darkslateblue|darkslategray|darkslategrey|darkturquoise|lavenderblush|lightseagreen|palegoldenrod|paleturquoise|palevioletred|rebeccapurple|antiquewhite|darkseagreen|lemonchiffon|lightskyblue|mediumorchid|mediumpurple|midnightblue|darkmagenta|deepskyblue|floralwhite|forestgreen|greenyellow|lightsalmon|lightyellow|navajowhite|saddlebrown|springgreen|yellowgreen|aquamarine|blueviolet|chartreuse|darkorange|darkorchid|darksalmon|darkviolet|dodgerblue|ghostwhite|lightcoral|lightgreen|mediumblue|papayawhip|powderblue|sandybrown|whitesmoke|aliceblue|burlywood|cadetblue|chocolate|darkgreen|darkkhaki|firebrick|gainsboro|goldenrod|indianred|lawngreen|lightblue|lightcyan|lightgray|lightgrey|lightpink|limegreen|mintcream|mistyrose|olivedrab|orangered|palegreen|peachpuff|rosybrown|royalblue|slateblue|slategray|slategrey|steelblue|turquoise|cornsilk|darkblue|darkcyan|darkgray|darkgrey|deeppink|honeydew|lavender|moccasin|seagreen|seashell|crimson|darkred|dimgray|dimgrey|fuchsia|hotpink|magenta|oldlace|skyblue|thistle|bisque|indigo|maroon|orange|orchid|purple|salmon|sienna|silver|tomato|violet|yellow|azure|beige|black|brown|coral|green|ivory|khaki|linen|olive|wheat|white|aqua|blue|cyan|gold|gray|grey|lime|navy|peru|pink|plum|snow|teal|red|tan|transparent|currentColor\";\nvar firstColorRe = new RegExp(\n  `(#[0-9a-fA-F]{3,8}|rgba?\\\\([^)]*\\\\)|hsla?\\\\([^)]*\\\\)|\\\\b(?:${NAMED_COLOR_ALTERNATION})\\\\b)`\n);\nvar _TEXT_INPUT_TYPES = /* @__PURE__ */ new Set([\"text\", \"search\", \"url\", \"tel\", \"email\", \"password\", \"number\"]);\nvar resolveElementCursor = (el, cs) => {\n  let c = (cs.cursor || \"auto\").trim();\n  if (c.indexOf(\"url(\") !== -1) {\n    const parts = c.split(\",\");\n    c = parts[parts.length - 1].trim();\n  }\n  if (c !== \"auto\") return c;\n  const tag = el.tagName;\n  const editable = el.isContentEditable === true || tag === \"TEXTAREA\" || tag === \"INPUT\" && _TEXT_INPUT_TYPES.has((el.getAttribute(\"type\") || \"text\").toLowerCase());\n  let selectableText = false;\n  if (!editable) {\n    const us = cs.userSelect || cs.webkitUserSelect || \"\";\n    if (us !== \"none\") {\n      for (let i = 0; i < el.childNodes.length; i++) {\n        const n = el.childNodes[i];\n        if (n.nodeType === 3 && n.textContent && n.textContent.trim() !== \"\") {\n          selectableText = true;\n          break;\n        }\n      }\n    }\n  }\n  if (editable || selectableText) {\n    return (cs.writingMode || \"\").indexOf(\"vertical\") === 0 ? \"vertical-text\" : \"text\";\n  }\n  return \"default\";\n};\nvar isOutsideCaptureViewport = (rect, vp) => rect.right < vp.x || rect.bottom < vp.y || rect.left > vp.x + vp.width || rect.top > vp.y + vp.height;\n\n// src/capture/script/placeholder-shown.ts\nvar createPlaceholderShown = () => {\n  const rules = [];\n  const collect = (cssRules) => {\n    if (cssRules == null) return;\n    for (let i = 0; i < cssRules.length; i++) {\n      const rule = cssRules[i];\n      if (rule == null) continue;\n      const sel = rule.selectorText;\n      if (typeof sel === \"string\" && sel.indexOf(\":placeholder-shown\") >= 0) {\n        const hostSel = sel.replace(/:placeholder-shown/g, \"\").trim() || \"*\";\n        const decl = rule.style;\n        let bg = \"\";\n        if (!isUnsetCssValue(decl.backgroundColor)) bg = decl.backgroundColor;\n        else if (!isUnsetCssValue(decl.background)) {\n          const cm = decl.background.match(firstColorRe);\n          if (cm != null) bg = cm[1];\n        }\n        if (bg !== \"\") rules.push({ hostSel, bg });\n      }\n      if (rule.cssRules != null && rule.cssRules.length > 0) collect(rule.cssRules);\n    }\n  };\n  for (let i = 0; i < document.styleSheets.length; i++) {\n    try {\n      collect(document.styleSheets[i].cssRules);\n    } catch (e) {\n    }\n  }\n  const resolvePlaceholderShownBg = (el) => {\n    let bg = \"\";\n    for (let i = 0; i < rules.length; i++) {\n      const r = rules[i];\n      let isMatch = false;\n      try {\n        isMatch = el.matches(r.hostSel);\n      } catch (e) {\n      }\n      if (isMatch) bg = r.bg;\n    }\n    return bg;\n  };\n  return { resolvePlaceholderShownBg };\n};\n\n// src/capture/script/font-family-default.ts\nvar GENERIC_FAMILY_KEYWORDS = {\n  \"serif\": 1,\n  \"sans-serif\": 1,\n  \"monospace\": 1,\n  \"cursive\": 1,\n  \"fantasy\": 1,\n  \"system-ui\": 1,\n  \"ui-serif\": 1,\n  \"ui-sans-serif\": 1,\n  \"ui-monospace\": 1,\n  \"ui-rounded\": 1,\n  \"emoji\": 1,\n  \"math\": 1,\n  \"fangsong\": 1,\n  \"-webkit-body\": 1,\n  \"-webkit-standard\": 1,\n  \"-webkit-pictograph\": 1\n};\nvar createFontFamilyDefault = () => {\n  const selectorsByDocument = /* @__PURE__ */ new WeakMap();\n  const collect = (cssRules, familySelectors) => {\n    if (cssRules == null) return;\n    for (let i = 0; i < cssRules.length; i++) {\n      const rule = cssRules[i];\n      if (rule == null) continue;\n      const sel = rule.selectorText;\n      if (typeof sel === \"string\" && rule.style != null && rule.style.fontFamily !== \"\") {\n        familySelectors.push(sel);\n      }\n      if (rule.cssRules != null && rule.cssRules.length > 0) collect(rule.cssRules, familySelectors);\n    }\n  };\n  const selectorsFor = (doc) => {\n    const cached = selectorsByDocument.get(doc);\n    if (cached != null) return cached;\n    const familySelectors = [];\n    for (let i = 0; i < doc.styleSheets.length; i++) {\n      try {\n        collect(doc.styleSheets[i].cssRules, familySelectors);\n      } catch (e) {\n      }\n    }\n    selectorsByDocument.set(doc, familySelectors);\n    return familySelectors;\n  };\n  const UA_CONCRETE_FAMILY_TAGS = { INPUT: 1, TEXTAREA: 1, SELECT: 1, BUTTON: 1, KEYGEN: 1 };\n  const nodeSetsNonStandardFamily = (n, familySelectors) => {\n    if (UA_CONCRETE_FAMILY_TAGS[n.tagName] === 1) return true;\n    if (n.style != null && n.style.fontFamily !== \"\") return true;\n    if (n.tagName === \"FONT\" && n.hasAttribute(\"face\")) return true;\n    for (let i = 0; i < familySelectors.length; i++) {\n      let m = false;\n      try {\n        m = n.matches(familySelectors[i]);\n      } catch (e) {\n      }\n      if (m) return true;\n    }\n    return false;\n  };\n  const familyIsUADefault = (el, computedFontFamily) => {\n    if (typeof computedFontFamily !== \"string\" || computedFontFamily === \"\") return false;\n    const familySelectors = selectorsFor(el.ownerDocument || document);\n    let first = computedFontFamily.split(\",\")[0].trim();\n    if (first.charCodeAt(0) === 34 || first.charCodeAt(0) === 39) {\n      first = first.slice(1, -1);\n    }\n    if (first === \"\" || GENERIC_FAMILY_KEYWORDS[first.toLowerCase()] === 1) return false;\n    let n = el;\n    while (n != null && n.nodeType === 1) {\n      if (nodeSetsNonStandardFamily(n, familySelectors)) return false;\n      n = n.parentElement;\n    }\n    return true;\n  };\n  return { familyIsUADefault };\n};\n\n// src/capture/script/font-feature-values.ts\nfunction collectFontFeatureValues(doc) {\n  const families = {};\n  const categories = [\"annotation\", \"ornaments\", \"stylistic\", \"swash\", \"characterVariant\", \"styleset\"];\n  function familyNames(css) {\n    const out = [];\n    let token = \"\", quote = \"\";\n    for (const ch of css) {\n      if (quote) {\n        if (ch === quote) quote = \"\";\n        else token += ch;\n        continue;\n      }\n      if (ch === '\"' || ch === \"'\") {\n        quote = ch;\n        continue;\n      }\n      if (ch === \",\") {\n        if (token.trim()) out.push(token.trim().toLowerCase());\n        token = \"\";\n      } else token += ch;\n    }\n    if (token.trim()) out.push(token.trim().toLowerCase());\n    return out;\n  }\n  function visit(rules) {\n    if (!rules) return;\n    for (const rule of rules) {\n      if (typeof rule.fontFamily === \"string\" && rule.stylistic != null) {\n        for (const family of familyNames(rule.fontFamily)) {\n          const table = families[family] || (families[family] = {});\n          for (const category of categories) {\n            const entries = Array.from(rule[category].entries());\n            if (!entries.length) continue;\n            const aliases = table[category] || (table[category] = {});\n            for (const [name, values] of entries) aliases[name] = Array.from(values);\n          }\n        }\n      } else if (rule.cssRules) {\n        visit(rule.cssRules);\n      }\n    }\n  }\n  for (const sheet of doc.styleSheets) {\n    try {\n      visit(sheet.cssRules);\n    } catch {\n    }\n  }\n  return families;\n}\n\n// src/capture/script/pseudo-rules.ts\nvar _emptyPseudo = {\n  matched: false,\n  width: \"\",\n  height: \"\",\n  backgroundColor: \"\",\n  borderRadius: \"\",\n  backgroundImage: \"\",\n  border: \"\",\n  padding: \"\",\n  boxShadow: \"\"\n};\nvar createPseudoRules = (stylesByHost, propertyKey) => {\n  const resolveCornerRadius = (v, w, h, zoom) => {\n    if (v == null || v === \"\") return \"0px 0px\";\n    const z = zoom == null || zoom <= 0 ? 1 : zoom;\n    const parts = v.split(/\\s+/);\n    const a = parts[0] || \"0\";\n    const b = parts[1] != null ? parts[1] : a;\n    const aPx = a.endsWith(\"%\") ? (parseFloat(a) || 0) * w / 100 : (parseFloat(a) || 0) * z;\n    const bPx = b.endsWith(\"%\") ? (parseFloat(b) || 0) * h / 100 : (parseFloat(b) || 0) * z;\n    return aPx + \"px \" + bPx + \"px\";\n  };\n  const resolvePseudo = (el, kind) => {\n    if (propertyKey == null || propertyKey === \"\" || stylesByHost == null) return _emptyPseudo;\n    const hostId = el[propertyKey];\n    if (hostId == null) return _emptyPseudo;\n    return stylesByHost[hostId] && stylesByHost[hostId][kind] ? stylesByHost[hostId][kind] : _emptyPseudo;\n  };\n  return { resolvePseudo, resolveCornerRadius };\n};\n\n// src/capture/script/warnings.ts\nvar createWarnings = () => {\n  const warnings = [];\n  const seen = /* @__PURE__ */ new Set();\n  const shortSelector = (el) => {\n    const parts = [];\n    let cur = el;\n    while (cur != null && cur.nodeType === 1 && cur !== document.documentElement && parts.length < 5) {\n      let p = cur.tagName.toLowerCase();\n      if (cur.id) {\n        p += \"#\" + cur.id;\n        parts.unshift(p);\n        break;\n      }\n      if (cur.className && typeof cur.className === \"string\") {\n        const cls = cur.className.trim().split(/\\s+/).slice(0, 2).join(\".\");\n        if (cls !== \"\") p += \".\" + cls;\n      }\n      parts.unshift(p);\n      cur = cur.parentElement;\n    }\n    return parts.join(\" > \");\n  };\n  const warn = (sel, feature, detail) => {\n    const k = feature + \"|\" + sel;\n    if (seen.has(k)) return;\n    seen.add(k);\n    warnings.push({ selector: sel, feature, detail });\n  };\n  return { warn, shortSelector, warnings };\n};\n\n// src/capture/script/walker/counter-style-resolver.ts\nvar createCounterStyleResolver = ({ counterStyles }) => {\n  const BUILTINS = /* @__PURE__ */ new Set([\n    \"decimal\",\n    \"decimal-leading-zero\",\n    \"lower-alpha\",\n    \"lower-latin\",\n    \"upper-alpha\",\n    \"upper-latin\",\n    \"lower-roman\",\n    \"upper-roman\",\n    \"lower-greek\",\n    \"disc\",\n    \"circle\",\n    \"square\",\n    \"none\"\n  ]);\n  const resolveCounterStyle = (name, n) => _resolve(name, n, 0, true);\n  const resolveCounterValue = (name, n) => _resolve(name, n, 0, false);\n  const isCustomCounterStyle = (name) => counterStyles[name] != null;\n  const _resolve = (name, n, depth, wrap) => {\n    if (depth > 16) return null;\n    if (BUILTINS.has(name)) return _formatBuiltin(name, n);\n    const def = counterStyles[name];\n    if (def == null) return _formatBuiltin(\"decimal\", n);\n    if (def.system === \"extends\" && def.extendsName != null) {\n      const childSym = _resolve(def.extendsName, n, depth + 1, wrap);\n      if (childSym == null) return null;\n      const padded2 = _applyPad(childSym, def.padLen, def.padSym);\n      return wrap ? def.prefix + padded2 + def.suffix : padded2;\n    }\n    if (n < def.rangeLo || n > def.rangeHi) {\n      const fb = _resolve(def.fallback ?? \"decimal\", n, depth + 1, false);\n      if (fb == null) return null;\n      return wrap ? def.prefix + fb + def.suffix : fb;\n    }\n    const negative = n < 0;\n    const abs = Math.abs(n);\n    let core = null;\n    switch (def.system) {\n      case \"cyclic\":\n        if (def.symbols.length === 0) break;\n        core = def.symbols[((abs - 1) % def.symbols.length + def.symbols.length) % def.symbols.length];\n        break;\n      case \"fixed\": {\n        const idx0 = abs - 1;\n        if (idx0 >= 0 && idx0 < def.symbols.length) core = def.symbols[idx0];\n        break;\n      }\n      case \"numeric\": {\n        if (def.symbols.length < 2) break;\n        if (abs === 0) {\n          core = def.symbols[0];\n          break;\n        }\n        const base = def.symbols.length;\n        let v = abs;\n        let s = \"\";\n        while (v > 0) {\n          s = def.symbols[v % base] + s;\n          v = Math.floor(v / base);\n        }\n        core = s;\n        break;\n      }\n      case \"alphabetic\": {\n        if (def.symbols.length === 0 || abs <= 0) break;\n        const base = def.symbols.length;\n        let v = abs;\n        let s = \"\";\n        while (v > 0) {\n          v--;\n          s = def.symbols[v % base] + s;\n          v = Math.floor(v / base);\n        }\n        core = s;\n        break;\n      }\n      case \"symbolic\": {\n        if (def.symbols.length === 0 || abs <= 0) break;\n        const base = def.symbols.length;\n        const copies = Math.ceil(abs / base);\n        const sym = def.symbols[(abs - 1) % base];\n        core = sym.repeat(copies);\n        break;\n      }\n      case \"additive\": {\n        if (def.additiveSymbols.length === 0) break;\n        if (abs === 0) {\n          const zero = def.additiveSymbols.find((s) => s.weight === 0);\n          core = zero ? zero.sym : null;\n        } else {\n          let v = abs;\n          let s = \"\";\n          for (const { weight, sym } of def.additiveSymbols) {\n            if (weight <= 0) continue;\n            const count = Math.floor(v / weight);\n            for (let i = 0; i < count; i++) s += sym;\n            v -= count * weight;\n          }\n          core = v === 0 ? s : null;\n        }\n        break;\n      }\n    }\n    if (core == null) {\n      const fb = _resolve(def.fallback ?? \"decimal\", n, depth + 1, false);\n      if (fb == null) return null;\n      return wrap ? def.prefix + fb + def.suffix : fb;\n    }\n    const padded = _applyPad(core, def.padLen, def.padSym);\n    const sign = negative ? def.negPrefix : \"\";\n    const signTail = negative ? def.negSuffix : \"\";\n    return wrap ? def.prefix + sign + padded + signTail + def.suffix : sign + padded + signTail;\n  };\n  const _applyPad = (s, len, sym) => {\n    if (!len || !sym) return s;\n    while ([...s].length < len) s = sym + s;\n    return s;\n  };\n  const _formatBuiltin = (type, n) => {\n    switch (type) {\n      case \"decimal\":\n        return String(n);\n      case \"decimal-leading-zero\":\n        return n < 10 && n >= 0 ? \"0\" + n : String(n);\n      case \"lower-alpha\":\n      case \"lower-latin\":\n        return _alphaMarker(n, false);\n      case \"upper-alpha\":\n      case \"upper-latin\":\n        return _alphaMarker(n, true);\n      case \"lower-roman\":\n        return _romanMarker(n).toLowerCase();\n      case \"upper-roman\":\n        return _romanMarker(n);\n      case \"lower-greek\":\n        return _greekMarker(n);\n      case \"disc\":\n      case \"circle\":\n      case \"square\":\n      case \"none\":\n        return null;\n      default:\n        return String(n);\n    }\n  };\n  const _alphaMarker = (n, upper) => {\n    if (n <= 0) return String(n);\n    const base = upper ? 65 : 97;\n    let s = \"\";\n    let v = n;\n    while (v > 0) {\n      v--;\n      s = String.fromCharCode(base + v % 26) + s;\n      v = Math.floor(v / 26);\n    }\n    return s;\n  };\n  const _greekMarker = (n) => {\n    if (n <= 0) return String(n);\n    const greek = \"\\u03B1\\u03B2\\u03B3\\u03B4\\u03B5\\u03B6\\u03B7\\u03B8\\u03B9\\u03BA\\u03BB\\u03BC\\u03BD\\u03BE\\u03BF\\u03C0\\u03C1\\u03C3\\u03C4\\u03C5\\u03C6\\u03C7\\u03C8\\u03C9\";\n    let s = \"\";\n    let v = n;\n    while (v > 0) {\n      v--;\n      s = greek.charAt(v % 24) + s;\n      v = Math.floor(v / 24);\n    }\n    return s;\n  };\n  const _romanMarker = (n) => {\n    if (n <= 0 || n >= 4e3) return String(n);\n    const vals = [1e3, 900, 500, 400, 100, 90, 50, 40, 10, 9, 5, 4, 1];\n    const syms = [\"M\", \"CM\", \"D\", \"CD\", \"C\", \"XC\", \"L\", \"XL\", \"X\", \"IX\", \"V\", \"IV\", \"I\"];\n    let s = \"\";\n    let v = n;\n    for (let i = 0; i < vals.length; i++) {\n      while (v >= vals[i]) {\n        s += syms[i];\n        v -= vals[i];\n      }\n    }\n    return s;\n  };\n  return { resolveCounterStyle, resolveCounterValue, isCustomCounterStyle };\n};\n\n// src/capture/script/walker/counter-prewalk.ts\nvar createCounterStylePrewalk = ({ counterStyles }) => {\n  function _parseStringList(s) {\n    const out = [];\n    let i = 0;\n    while (i < s.length) {\n      while (i < s.length && /\\s/.test(s[i])) i++;\n      if (i >= s.length) break;\n      const q = s[i];\n      if (q !== '\"' && q !== \"'\") {\n        let j2 = i;\n        while (j2 < s.length && !/\\s/.test(s[j2])) j2++;\n        out.push(s.slice(i, j2));\n        i = j2;\n        continue;\n      }\n      let j = i + 1;\n      let val = \"\";\n      while (j < s.length && s[j] !== q) {\n        if (s[j] === \"\\\\\" && j + 1 < s.length) {\n          const hex = /^\\\\([0-9a-fA-F]{1,6})\\s?/.exec(s.slice(j));\n          if (hex != null) {\n            val += String.fromCodePoint(parseInt(hex[1], 16));\n            j += hex[0].length;\n            continue;\n          }\n          val += s[j + 1];\n          j += 2;\n        } else {\n          val += s[j];\n          j++;\n        }\n      }\n      out.push(val);\n      i = j + 1;\n    }\n    return out;\n  }\n  function _parseAdditiveSymbols(s) {\n    const out = [];\n    for (const tok of s.split(\",\")) {\n      const m = /(-?\\d+)\\s+(.+)/.exec(tok.trim());\n      if (m == null) continue;\n      const weight = parseInt(m[1], 10);\n      const sym = _parseStringList(m[2])[0] ?? \"\";\n      out.push({ weight, sym });\n    }\n    out.sort((a, b) => b.weight - a.weight);\n    return out;\n  }\n  function _walkRulesForCounterStyles(rules) {\n    for (let i = 0; i < rules.length; i++) {\n      const rule = rules[i];\n      if (rule.type === 11 || window.CSSCounterStyleRule != null && rule instanceof window.CSSCounterStyleRule) {\n        const name = rule.name;\n        if (!name) continue;\n        let extendsName;\n        let sys = rule.system || \"symbolic\";\n        const extMatch = /^extends\\s+(\\S+)/.exec(sys);\n        if (extMatch) {\n          extendsName = extMatch[1];\n          sys = \"extends\";\n        } else {\n          const sysMatch = /^(cyclic|numeric|alphabetic|symbolic|fixed|additive)\\b/.exec(sys);\n          sys = sysMatch ? sysMatch[1] : \"symbolic\";\n        }\n        const symbols = rule.symbols ? _parseStringList(rule.symbols) : [];\n        const additiveSymbols = rule.additiveSymbols ? _parseAdditiveSymbols(rule.additiveSymbols) : [];\n        const prefix = rule.prefix ? _parseStringList(rule.prefix)[0] ?? \"\" : \"\";\n        const suffix = rule.suffix ? _parseStringList(rule.suffix)[0] ?? \". \" : \". \";\n        const negativeRaw = rule.negative;\n        let negPrefix = \"-\";\n        let negSuffix = \"\";\n        if (negativeRaw) {\n          const nlist = _parseStringList(negativeRaw);\n          negPrefix = nlist[0] ?? \"-\";\n          if (nlist.length > 1) negSuffix = nlist[1];\n        }\n        let padLen = 0;\n        let padSym = \"\";\n        if (rule.pad) {\n          const pm = /^\\s*(\\d+)\\s+(.+)$/.exec(rule.pad);\n          if (pm != null) {\n            padLen = parseInt(pm[1], 10);\n            padSym = _parseStringList(pm[2])[0] ?? \"\";\n          }\n        }\n        let rangeLo = -Infinity;\n        let rangeHi = Infinity;\n        if (rule.range && rule.range !== \"auto\") {\n          const rm = /(-?\\d+|infinite)\\s+(-?\\d+|infinite)/.exec(rule.range);\n          if (rm != null) {\n            rangeLo = rm[1] === \"infinite\" ? -Infinity : parseInt(rm[1], 10);\n            rangeHi = rm[2] === \"infinite\" ? Infinity : parseInt(rm[2], 10);\n          }\n        }\n        const fallback = rule.fallback || \"decimal\";\n        counterStyles[name] = { system: sys, symbols, additiveSymbols, prefix, suffix, negPrefix, negSuffix, padLen, padSym, rangeLo, rangeHi, fallback, extendsName };\n      } else if (rule.cssRules) {\n        _walkRulesForCounterStyles(rule.cssRules);\n      }\n    }\n  }\n  return (doc) => {\n    const _doc = doc || document;\n    for (const sheet of Array.from(_doc.styleSheets)) {\n      try {\n        _walkRulesForCounterStyles(sheet.cssRules);\n      } catch (e) {\n      }\n    }\n  };\n};\n\n// src/capture/svg-affine-freeze.ts\nfunction isFiniteSvgAffine(matrix) {\n  return matrix != null && Number.isFinite(matrix.a) && Number.isFinite(matrix.b) && Number.isFinite(matrix.c) && Number.isFinite(matrix.d) && Number.isFinite(matrix.e) && Number.isFinite(matrix.f);\n}\nfunction multiplySvgAffine(left, right) {\n  return {\n    a: left.a * right.a + left.c * right.b,\n    b: left.b * right.a + left.d * right.b,\n    c: left.a * right.c + left.c * right.d,\n    d: left.b * right.c + left.d * right.d,\n    e: left.a * right.e + left.c * right.f + left.e,\n    f: left.b * right.e + left.d * right.f + left.f\n  };\n}\nfunction invertSvgAffine(matrix) {\n  if (!isFiniteSvgAffine(matrix)) return null;\n  const determinant = matrix.a * matrix.d - matrix.b * matrix.c;\n  if (!Number.isFinite(determinant) || determinant === 0) return null;\n  const inverse = {\n    a: matrix.d / determinant,\n    b: -matrix.b / determinant,\n    c: -matrix.c / determinant,\n    d: matrix.a / determinant,\n    e: (matrix.c * matrix.f - matrix.d * matrix.e) / determinant,\n    f: (matrix.b * matrix.e - matrix.a * matrix.f) / determinant\n  };\n  return isFiniteSvgAffine(inverse) ? inverse : null;\n}\nfunction deriveSvgAffineFreeze(usedCtm, parentCtm, neutralCtm) {\n  if (!isFiniteSvgAffine(usedCtm) || !isFiniteSvgAffine(parentCtm) || !isFiniteSvgAffine(neutralCtm)) {\n    return null;\n  }\n  const parentInverse = invertSvgAffine(parentCtm);\n  if (parentInverse == null) return null;\n  const usedLocal = multiplySvgAffine(parentInverse, usedCtm);\n  const neutralLocal = multiplySvgAffine(parentInverse, neutralCtm);\n  const neutralInverse = invertSvgAffine(neutralLocal);\n  if (neutralInverse == null) return null;\n  const frozen = multiplySvgAffine(usedLocal, neutralInverse);\n  if (invertSvgAffine(usedLocal) == null || invertSvgAffine(frozen) == null) return null;\n  return { usedLocal, neutralLocal, frozen };\n}\nfunction serializeSvgNumber(value) {\n  return Object.is(value, -0) ? \"0\" : String(value);\n}\nfunction serializeSvgAffine(matrix) {\n  if (!isFiniteSvgAffine(matrix)) return null;\n  return `matrix(${serializeSvgNumber(matrix.a)} ${serializeSvgNumber(matrix.b)} ${serializeSvgNumber(matrix.c)} ${serializeSvgNumber(matrix.d)} ${serializeSvgNumber(matrix.e)} ${serializeSvgNumber(matrix.f)})`;\n}\nfunction svgAffineMaxPointError(left, right, points = [[0, 0], [1, 0], [0, 1]]) {\n  if (!isFiniteSvgAffine(left) || !isFiniteSvgAffine(right)) return Number.POSITIVE_INFINITY;\n  let max = 0;\n  for (const [x, y] of points) {\n    const lx = left.a * x + left.c * y + left.e;\n    const ly = left.b * x + left.d * y + left.f;\n    const rx = right.a * x + right.c * y + right.e;\n    const ry = right.b * x + right.d * y + right.f;\n    max = Math.max(max, Math.hypot(lx - rx, ly - ry));\n  }\n  return max;\n}\n\n// src/capture/script/walker/inline-svg.ts\nvar captureInlineSvg = (el, cs, warn, sel) => {\n  const svgFill = cs.fill;\n  const svgStroke = cs.stroke;\n  const svgStrokeWidth = cs.strokeWidth;\n  const svgFontFamily = cs.fontFamily;\n  const clone = el.cloneNode(true);\n  var _affineFreezeFailure = null;\n  const _affineFreezeRecords = [];\n  const _frozenByClone = /* @__PURE__ */ new WeakMap();\n  const _transformProperties = /* @__PURE__ */ new Set([\n    \"transform\",\n    \"transform-origin\",\n    \"transform-box\",\n    \"translate\",\n    \"rotate\",\n    \"scale\",\n    \"offset\",\n    \"offset-path\",\n    \"offset-distance\",\n    \"offset-position\",\n    \"offset-anchor\",\n    \"offset-rotate\"\n  ]);\n  const _matrixFrom = (matrix) => matrix == null ? null : {\n    a: Number(matrix.a),\n    b: Number(matrix.b),\n    c: Number(matrix.c),\n    d: Number(matrix.d),\n    e: Number(matrix.e),\n    f: Number(matrix.f)\n  };\n  const _nearestCtmParent = (node) => {\n    var parent = node.parentElement;\n    while (parent != null && typeof parent.getCTM !== \"function\") parent = parent.parentElement;\n    return parent;\n  };\n  const _hasTransformSignal = (node, style) => {\n    if (node.hasAttribute && node.hasAttribute(\"transform\")) return true;\n    for (const prop of [\"transform\", \"translate\", \"rotate\", \"scale\", \"offset-path\"]) {\n      const value = style.getPropertyValue(prop).trim();\n      if (value !== \"\" && value !== \"none\") return true;\n    }\n    for (const child of node.children || []) {\n      const name = (child.localName || \"\").toLowerCase();\n      const attribute = (child.getAttribute && child.getAttribute(\"attributeName\") || \"\").toLowerCase();\n      if (name === \"animatemotion\" || name === \"animatetransform\" || (name === \"animate\" || name === \"set\") && attribute === \"transform\") return true;\n    }\n    return false;\n  };\n  const _neutralizeProbeTransform = (probe) => {\n    if (probe.style == null) return;\n    probe.style.setProperty(\"transform\", \"none\", \"important\");\n    probe.style.setProperty(\"translate\", \"none\", \"important\");\n    probe.style.setProperty(\"rotate\", \"none\", \"important\");\n    probe.style.setProperty(\"scale\", \"none\", \"important\");\n    probe.style.setProperty(\"offset-path\", \"none\", \"important\");\n    probe.style.setProperty(\"animation\", \"none\", \"important\");\n    probe.style.setProperty(\"transition\", \"none\", \"important\");\n    probe.style.setProperty(\"visibility\", \"hidden\", \"important\");\n    probe.style.setProperty(\"opacity\", \"0\", \"important\");\n    probe.style.setProperty(\"pointer-events\", \"none\", \"important\");\n  };\n  const _cleanCloneTransformOwner = (node, serialized) => {\n    node.setAttribute(\"transform\", serialized);\n    if (node.style != null) {\n      for (const prop of _transformProperties) node.style.removeProperty(prop);\n    }\n  };\n  const _freezeUsedAffine = (origNode, cloneNode, ocs) => {\n    if (_affineFreezeFailure != null || !_hasTransformSignal(origNode, ocs)) return;\n    if (typeof origNode.getCTM !== \"function\") {\n      _affineFreezeFailure = \"transformed SVG node does not expose getCTM()\";\n      return;\n    }\n    const parent = _nearestCtmParent(origNode);\n    if (parent == null || typeof parent.getCTM !== \"function\") {\n      _affineFreezeFailure = \"transformed SVG node has no correlatable SVG parent CTM\";\n      return;\n    }\n    var usedCtm = null;\n    var parentCtm = null;\n    try {\n      usedCtm = _matrixFrom(origNode.getCTM());\n      parentCtm = _matrixFrom(parent.getCTM());\n    } catch (e) {\n      _affineFreezeFailure = \"Blink-used parent-relative affine matrix could not be read\";\n      return;\n    }\n    var probe = null;\n    var neutralCtm = null;\n    try {\n      probe = cloneNode.cloneNode(false);\n      _neutralizeProbeTransform(probe);\n      if (probe.setAttribute) probe.setAttribute(\"aria-hidden\", \"true\");\n      origNode.parentElement.appendChild(probe);\n      neutralCtm = _matrixFrom(probe.getCTM && probe.getCTM());\n    } catch (e) {\n      neutralCtm = null;\n    } finally {\n      if (probe != null && probe.remove) probe.remove();\n    }\n    const freeze = usedCtm != null && parentCtm != null && neutralCtm != null ? deriveSvgAffineFreeze(usedCtm, parentCtm, neutralCtm) : null;\n    const serialized = freeze == null ? null : serializeSvgAffine(freeze.frozen);\n    if (freeze == null || serialized == null) {\n      _affineFreezeFailure = \"Blink-used parent-relative affine matrix was unavailable or singular\";\n      return;\n    }\n    _cleanCloneTransformOwner(cloneNode, serialized);\n    var points = [[0, 0], [1, 0], [0, 1]];\n    try {\n      const bbox = origNode.getBBox();\n      if (bbox != null && [bbox.x, bbox.y, bbox.width, bbox.height].every(Number.isFinite)) {\n        points = [[bbox.x, bbox.y], [bbox.x + bbox.width, bbox.y], [bbox.x, bbox.y + bbox.height], [bbox.x + bbox.width, bbox.y + bbox.height]];\n      }\n    } catch (e) {\n    }\n    const record = { cloneNode, expected: freeze.usedLocal, frozen: freeze.frozen, points, serialized, skip: false };\n    _affineFreezeRecords.push(record);\n    _frozenByClone.set(cloneNode, record);\n  };\n  const _unresolvedCssExprRe = /\\b(?:var|calc|env|attr)\\s*\\(/;\n  function _isUnresolvedCssExpr(v) {\n    return v != null && _unresolvedCssExprRe.test(v);\n  }\n  function _hasConcreteAttr(node, attr) {\n    return node.hasAttribute(attr) && !_isUnresolvedCssExpr(node.getAttribute(attr));\n  }\n  if (svgFill && svgFill !== \"\" && !_hasConcreteAttr(el, \"fill\")) clone.setAttribute(\"fill\", svgFill);\n  if (svgStroke && svgStroke !== \"\" && svgStroke !== \"none\" && !_hasConcreteAttr(el, \"stroke\")) clone.setAttribute(\"stroke\", svgStroke);\n  if (svgStrokeWidth && svgStrokeWidth !== \"\" && !_hasConcreteAttr(el, \"stroke-width\")) clone.setAttribute(\"stroke-width\", svgStrokeWidth);\n  if (svgFontFamily && svgFontFamily !== \"\" && !el.hasAttribute(\"font-family\")) {\n    clone.setAttribute(\"font-family\", svgFontFamily);\n  }\n  const svgOverflow = cs.getPropertyValue(\"overflow\").trim();\n  if (svgOverflow !== \"\") clone.style.setProperty(\"overflow\", svgOverflow);\n  const _bakeSvgAttrs = [\"fill\", \"stroke\", \"stroke-width\", \"stroke-dasharray\", \"stroke-linecap\", \"stroke-linejoin\", \"stroke-opacity\", \"fill-opacity\", \"opacity\"];\n  const _svgGeomAttrsByTag = {\n    circle: [\"cx\", \"cy\", \"r\"],\n    ellipse: [\"cx\", \"cy\", \"rx\", \"ry\"],\n    rect: [\"x\", \"y\", \"width\", \"height\", \"rx\", \"ry\"],\n    image: [\"x\", \"y\", \"width\", \"height\"],\n    foreignobject: [\"x\", \"y\", \"width\", \"height\"],\n    use: [\"x\", \"y\", \"width\", \"height\"],\n    svg: [\"x\", \"y\", \"width\", \"height\"],\n    path: [\"d\"]\n  };\n  const _bakeSvgMaskProps = [\"mask-image\", \"mask-origin\", \"mask-clip\", \"mask-position\", \"mask-size\", \"mask-repeat\", \"mask-composite\", \"mask-mode\"];\n  const _walkBake = (origNode, cloneNode) => {\n    if (origNode.nodeType !== 1) return;\n    const ns = origNode.namespaceURI;\n    if (ns === \"http://www.w3.org/2000/svg\" && origNode !== el) {\n      const ocs = window.getComputedStyle(origNode);\n      const _usesCurrentColor = (camel) => {\n        const baseVal = ocs[camel];\n        if (baseVal !== ocs.color) return false;\n        const savedColor = origNode.style.color;\n        origNode.style.color = \"rgb(1, 2, 3)\";\n        const probeCs = window.getComputedStyle(origNode);\n        const matches = probeCs[camel] === probeCs.color;\n        origNode.style.color = savedColor;\n        return matches;\n      };\n      for (const attr of _bakeSvgAttrs) {\n        const camel = attr.replace(/-([a-z])/g, (_, c) => c.toUpperCase());\n        const val = ocs[camel];\n        if (val != null && val !== \"\" && !_hasConcreteAttr(origNode, attr)) {\n          const preserveCurrent = (attr === \"fill\" || attr === \"stroke\") && _usesCurrentColor(camel);\n          cloneNode.setAttribute(attr, preserveCurrent ? \"currentColor\" : val);\n        }\n      }\n      const geomAttrs = _svgGeomAttrsByTag[(origNode.localName || \"\").toLowerCase()] || [];\n      for (const gattr of geomAttrs) {\n        let smilOwnsValue = false;\n        for (const child of origNode.children) {\n          if ((child.localName || \"\").toLowerCase() === \"animate\" && child.getAttribute(\"attributeName\") === gattr) {\n            smilOwnsValue = true;\n            break;\n          }\n        }\n        if (smilOwnsValue) continue;\n        let gval = ocs.getPropertyValue(gattr);\n        if (gval == null) continue;\n        gval = gval.trim();\n        if (gval === \"\" || gval === \"auto\" || gval === \"none\" || gval === \"normal\") continue;\n        if (gattr === \"d\") {\n          const m = /^path\\(\\s*(?:\"([^\"]*)\"|'([^']*)')\\s*\\)$/.exec(gval);\n          if (m) gval = m[1] != null ? m[1] : m[2];\n          else continue;\n        } else if (/^-?\\d+(?:\\.\\d+)?px$/.test(gval)) {\n          gval = gval.slice(0, -2);\n        }\n        const sourceVal = origNode.getAttribute(gattr);\n        if (sourceVal != null && !_isUnresolvedCssExpr(sourceVal) && sourceVal.trim() === gval) continue;\n        cloneNode.setAttribute(gattr, gval);\n      }\n      const computedClipPath = ocs.getPropertyValue(\"clip-path\").trim();\n      if (computedClipPath !== \"\" && computedClipPath !== \"none\") {\n        cloneNode.style.setProperty(\"clip-path\", computedClipPath);\n      }\n      const computedFilter = ocs.getPropertyValue(\"filter\").trim();\n      if (computedFilter !== \"\" && computedFilter !== \"none\") {\n        cloneNode.style.setProperty(\"filter\", computedFilter);\n      }\n      const computedOverflow = ocs.getPropertyValue(\"overflow\").trim();\n      if (computedOverflow !== \"\" && computedOverflow !== \"visible\") {\n        cloneNode.style.setProperty(\"overflow\", computedOverflow);\n      }\n      const computedMaskImage = ocs.getPropertyValue(\"mask-image\").trim();\n      if (computedMaskImage !== \"\" && computedMaskImage !== \"none\") {\n        for (const prop of _bakeSvgMaskProps) {\n          const value = ocs.getPropertyValue(prop).trim();\n          if (value !== \"\") cloneNode.style.setProperty(prop, value);\n        }\n      }\n      if (origNode.tagName && origNode.tagName.toLowerCase() === \"mask\") {\n        const mt = ocs.maskType || ocs.getPropertyValue(\"mask-type\");\n        if (mt === \"alpha\" || mt === \"luminance\") {\n          if (!origNode.hasAttribute(\"mask-type\") || origNode.getAttribute(\"mask-type\") !== mt) {\n            cloneNode.setAttribute(\"mask-type\", mt);\n          }\n        }\n      }\n      _freezeUsedAffine(origNode, cloneNode, ocs);\n    }\n    const oChildren = origNode.children;\n    const cChildren = cloneNode.children;\n    const n = Math.min(oChildren.length, cChildren.length);\n    for (let i = 0; i < n; i++) _walkBake(oChildren[i], cChildren[i]);\n  };\n  _walkBake(el, clone);\n  const _svgNS = \"http://www.w3.org/2000/svg\";\n  const _xlinkNS = \"http://www.w3.org/1999/xlink\";\n  const _resolveUseRefs = (root, depth) => {\n    if (depth > 5) return;\n    var uses = root.querySelectorAll ? root.querySelectorAll(\"use\") : [];\n    for (var ui = 0; ui < uses.length; ui++) {\n      var useEl = uses[ui];\n      var href = useEl.getAttribute(\"href\");\n      if (href == null || href === \"\") href = useEl.getAttributeNS(_xlinkNS, \"href\") || \"\";\n      if (href.charAt(0) !== \"#\") continue;\n      var targetId = href.slice(1);\n      var target = document.getElementById(targetId);\n      if (target == null) continue;\n      if (target.namespaceURI !== _svgNS) continue;\n      if (typeof target.getAnimations === \"function\") {\n        try {\n          var anims = target.getAnimations({ subtree: true });\n          if (anims != null && anims.length > 0) {\n            warn(sel, \"inline-svg\", '<use href=\"#' + targetId + '\"> resolved to a CSS-animated subtree; the inlined SVG carries the t=0 computed paint state (no animation in the output)');\n          }\n        } catch (e) {\n        }\n      }\n      var ux = parseFloat(useEl.getAttribute(\"x\") || \"0\") || 0;\n      var uy = parseFloat(useEl.getAttribute(\"y\") || \"0\") || 0;\n      var uw = useEl.getAttribute(\"width\");\n      var uh = useEl.getAttribute(\"height\");\n      var targetTag = target.tagName.toLowerCase();\n      var replacement;\n      if (targetTag === \"symbol\") {\n        var vb = target.getAttribute(\"viewBox\") || \"\";\n        var par = target.getAttribute(\"preserveAspectRatio\") || \"\";\n        var innerSvg = document.createElementNS(_svgNS, \"svg\");\n        if (ux !== 0) innerSvg.setAttribute(\"x\", String(ux));\n        if (uy !== 0) innerSvg.setAttribute(\"y\", String(uy));\n        if (uw != null) innerSvg.setAttribute(\"width\", uw);\n        if (uh != null) innerSvg.setAttribute(\"height\", uh);\n        if (vb !== \"\") innerSvg.setAttribute(\"viewBox\", vb);\n        if (par !== \"\") innerSvg.setAttribute(\"preserveAspectRatio\", par);\n        for (var ci = 0; ci < target.children.length; ci++) {\n          var clonedChild = target.children[ci].cloneNode(true);\n          innerSvg.appendChild(clonedChild);\n          _walkBake(target.children[ci], clonedChild);\n        }\n        var useTransformAttrSym = useEl.getAttribute(\"transform\") || \"\";\n        if (useTransformAttrSym !== \"\") {\n          replacement = document.createElementNS(_svgNS, \"g\");\n          replacement.setAttribute(\"transform\", useTransformAttrSym);\n          replacement.appendChild(innerSvg);\n        } else {\n          replacement = innerSvg;\n        }\n      } else {\n        replacement = document.createElementNS(_svgNS, \"g\");\n        var useTransformAttr = useEl.getAttribute(\"transform\") || \"\";\n        var translatePart = ux !== 0 || uy !== 0 ? \"translate(\" + ux + \",\" + uy + \")\" : \"\";\n        var composedTransform = (useTransformAttr + \" \" + translatePart).trim();\n        if (composedTransform !== \"\") {\n          replacement.setAttribute(\"transform\", composedTransform);\n        }\n        var clonedTarget = target.cloneNode(true);\n        if (clonedTarget.removeAttribute) clonedTarget.removeAttribute(\"id\");\n        replacement.appendChild(clonedTarget);\n        _walkBake(target, clonedTarget);\n        if (clonedTarget.tagName && clonedTarget.tagName.toLowerCase() === \"svg\" && clonedTarget.removeAttribute) {\n          if (!_hasConcreteAttr(target, \"width\") && /^0(?:\\.0+)?$/.test(clonedTarget.getAttribute(\"width\") || \"\")) {\n            clonedTarget.removeAttribute(\"width\");\n          }\n          if (!_hasConcreteAttr(target, \"height\") && /^0(?:\\.0+)?$/.test(clonedTarget.getAttribute(\"height\") || \"\")) {\n            clonedTarget.removeAttribute(\"height\");\n          }\n        }\n      }\n      const useFreeze = _frozenByClone.get(useEl);\n      if (useFreeze != null) {\n        useFreeze.skip = true;\n        var replacementExpected = useFreeze.frozen;\n        if (targetTag !== \"symbol\" && (ux !== 0 || uy !== 0)) {\n          replacementExpected = multiplySvgAffine(replacementExpected, {\n            a: 1,\n            b: 0,\n            c: 0,\n            d: 1,\n            e: ux,\n            f: uy\n          });\n        }\n        const replacementSerialized = serializeSvgAffine(replacementExpected);\n        if (replacementSerialized == null) {\n          _affineFreezeFailure = _affineFreezeFailure || \"inlined use transform could not be serialized\";\n        } else {\n          replacement.setAttribute(\"transform\", replacementSerialized);\n        }\n        _affineFreezeRecords.push({\n          cloneNode: replacement,\n          expected: replacementExpected,\n          frozen: replacementExpected,\n          points: useFreeze.points,\n          serialized: replacement.getAttribute(\"transform\") || \"\",\n          skip: false\n        });\n      }\n      var _useAttrs = [\"fill\", \"stroke\", \"stroke-width\", \"opacity\", \"class\", \"style\"];\n      for (var ai = 0; ai < _useAttrs.length; ai++) {\n        var av = useEl.getAttribute(_useAttrs[ai]);\n        if (av != null && av !== \"\") replacement.setAttribute(_useAttrs[ai], av);\n      }\n      useEl.parentNode.replaceChild(replacement, useEl);\n      _resolveUseRefs(replacement, depth + 1);\n    }\n  };\n  _resolveUseRefs(clone, 0);\n  for (const animation of Array.from(clone.querySelectorAll ? clone.querySelectorAll(\"animateMotion, animateTransform, animate[attributeName], set[attributeName]\") : [])) {\n    const name = (animation.localName || \"\").toLowerCase();\n    const attribute = (animation.getAttribute(\"attributeName\") || \"\").toLowerCase();\n    if (name === \"animatemotion\" || name === \"animatetransform\" || attribute === \"transform\") animation.remove();\n  }\n  const _sanitizeClonedTransformCss = () => {\n    for (const styleNode of Array.from(clone.querySelectorAll ? clone.querySelectorAll(\"style\") : [])) {\n      const cssText = styleNode.textContent || \"\";\n      if (!/(?:transform|translate|rotate|scale|offset(?:-|\\s*:))/i.test(cssText)) continue;\n      if (/@import\\b/i.test(cssText) || typeof CSSStyleSheet !== \"function\") {\n        _affineFreezeFailure = _affineFreezeFailure || \"transform-bearing cloned stylesheet could not be inspected\";\n        continue;\n      }\n      try {\n        const sheet = new CSSStyleSheet();\n        sheet.replaceSync(cssText);\n        const cleanRules = (rules) => {\n          for (const rule of Array.from(rules || [])) {\n            if (rule.style != null) {\n              for (const prop of Array.from(rule.style)) {\n                const normalized = prop.toLowerCase().replace(/^-webkit-/, \"\");\n                if (_transformProperties.has(normalized)) rule.style.removeProperty(prop);\n              }\n            }\n            if (rule.cssRules != null) cleanRules(rule.cssRules);\n          }\n        };\n        cleanRules(sheet.cssRules);\n        styleNode.textContent = Array.from(sheet.cssRules).map((rule) => rule.cssText).join(\"\\n\");\n      } catch (e) {\n        _affineFreezeFailure = _affineFreezeFailure || \"transform-bearing cloned stylesheet failed CSSOM normalization\";\n      }\n    }\n  };\n  _sanitizeClonedTransformCss();\n  const _validateFrozenAffines = () => {\n    if (_affineFreezeFailure != null || _affineFreezeRecords.length === 0) return;\n    const host = document.createElement(\"div\");\n    host.setAttribute(\"aria-hidden\", \"true\");\n    host.style.setProperty(\"all\", \"initial\", \"important\");\n    host.style.setProperty(\"position\", \"fixed\", \"important\");\n    host.style.setProperty(\"left\", \"-100000px\", \"important\");\n    host.style.setProperty(\"top\", \"-100000px\", \"important\");\n    host.style.setProperty(\"visibility\", \"hidden\", \"important\");\n    var shadow = null;\n    try {\n      shadow = host.attachShadow({ mode: \"closed\" });\n      shadow.appendChild(clone);\n      (document.body || document.documentElement).appendChild(host);\n      for (const record of _affineFreezeRecords) {\n        if (record.skip || !record.cloneNode.isConnected) continue;\n        const parent = _nearestCtmParent(record.cloneNode);\n        const parentCtm = _matrixFrom(parent && parent.getCTM && parent.getCTM());\n        const cloneCtm = _matrixFrom(record.cloneNode.getCTM && record.cloneNode.getCTM());\n        const parentInverse = parentCtm == null ? null : invertSvgAffine(parentCtm);\n        const actual = parentInverse == null || cloneCtm == null ? null : multiplySvgAffine(parentInverse, cloneCtm);\n        if (actual == null || svgAffineMaxPointError(actual, record.expected, record.points) > 1 / 256) {\n          _affineFreezeFailure = \"serialized SVG affine did not correlate with Blink-used local geometry\";\n          break;\n        }\n      }\n    } catch (e) {\n      _affineFreezeFailure = \"serialized SVG affine could not be validated in an isolated clone\";\n    } finally {\n      host.remove();\n    }\n  };\n  _validateFrozenAffines();\n  var _hostColor = cs.color;\n  var _substCurrentColor = (node) => {\n    if (node.nodeType !== 1) return;\n    var fa = node.getAttribute && node.getAttribute(\"fill\");\n    if (fa != null && /^currentcolor$/i.test(fa)) node.setAttribute(\"fill\", _hostColor);\n    var sa = node.getAttribute && node.getAttribute(\"stroke\");\n    if (sa != null && /^currentcolor$/i.test(sa)) node.setAttribute(\"stroke\", _hostColor);\n    for (var ci = 0; ci < node.children.length; ci++) _substCurrentColor(node.children[ci]);\n  };\n  _substCurrentColor(clone);\n  if (_affineFreezeFailure != null) {\n    warn(sel, \"inline-svg\", _affineFreezeFailure + \"; promoted the outer inline SVG to Chromium raster ownership\");\n  }\n  return { content: xmlMarkup(clone), affineFreezeFailed: _affineFreezeFailure != null };\n};\n\n// src/capture/script/walker/fieldset-legend.ts\nvar computeFieldsetLegendBox = (el, tag, rect, vp) => {\n  let fieldsetLegendNotch;\n  let fsX = rect.left - vp.x;\n  let fsY = rect.top - vp.y;\n  let fsW = rect.width;\n  let fsH = rect.height;\n  if (tag === \"fieldset\") {\n    for (let i = 0; i < el.children.length; i++) {\n      const ch = el.children[i];\n      if (ch.tagName.toLowerCase() !== \"legend\") continue;\n      const lr = ch.getBoundingClientRect();\n      if (lr.height > 0 && lr.width > 0 && Math.abs(lr.top - rect.top) < 2) {\n        const inset = lr.height / 2;\n        fsY = rect.top - vp.y + inset;\n        fsH = rect.height - inset;\n        fieldsetLegendNotch = { x: lr.left - vp.x, y: lr.top - vp.y, w: lr.width, h: lr.height };\n      }\n      break;\n    }\n  }\n  return { x: fsX, y: fsY, width: fsW, height: fsH, fieldsetLegendNotch };\n};\n\n// src/capture/script/walker/fragmentation.ts\nvar detectInlineFragments = (el, cs, vp, captured) => {\n  var _ownCount = parseInt(cs.columnCount, 10);\n  var _ownColumnWidth = parseFloat(cs.columnWidth || \"\");\n  var _ownGap = parseFloat(cs.columnGap || \"\");\n  if (!Number.isFinite(_ownGap)) _ownGap = parseFloat(cs.fontSize || \"16\") || 16;\n  var _ruleWidth = parseFloat(cs.columnRuleWidth || \"0\") || 0;\n  var _ruleStyle = cs.columnRuleStyle || \"none\";\n  if (_ruleWidth > 0 && _ruleStyle !== \"none\" && _ruleStyle !== \"hidden\") {\n    var _box = el.getBoundingClientRect();\n    var _contentLeft = _box.left + (parseFloat(cs.borderLeftWidth) || 0) + (parseFloat(cs.paddingLeft) || 0);\n    var _contentRight = _box.right - (parseFloat(cs.borderRightWidth) || 0) - (parseFloat(cs.paddingRight) || 0);\n    var _contentTop = _box.top + (parseFloat(cs.borderTopWidth) || 0) + (parseFloat(cs.paddingTop) || 0);\n    var _contentBottom = _box.bottom - (parseFloat(cs.borderBottomWidth) || 0) - (parseFloat(cs.paddingBottom) || 0);\n    var _contentWidth = _contentRight - _contentLeft;\n    if (!(Number.isFinite(_ownCount) && _ownCount > 1) && Number.isFinite(_ownColumnWidth) && _ownColumnWidth > 0) {\n      _ownCount = Math.max(1, Math.floor((_contentWidth + _ownGap) / (_ownColumnWidth + _ownGap)));\n    }\n    if (Number.isFinite(_ownCount) && _ownCount > 1 && _contentWidth > 0 && _contentBottom > _contentTop) {\n      var _rows = [];\n      var _rowStart = _contentTop;\n      for (var _si = 0; _si < el.children.length; _si++) {\n        var _span = el.children[_si];\n        var _spanCs = window.getComputedStyle(_span);\n        if (_spanCs.columnSpan !== \"all\") continue;\n        var _spanRect = _span.getBoundingClientRect();\n        var _spanTop = _spanRect.top - (parseFloat(_spanCs.marginTop) || 0);\n        var _spanBottom = _spanRect.bottom + (parseFloat(_spanCs.marginBottom) || 0);\n        if (_spanTop > _rowStart) _rows.push([_rowStart, Math.min(_spanTop, _contentBottom)]);\n        _rowStart = Math.max(_rowStart, _spanBottom);\n      }\n      if (_contentBottom > _rowStart) _rows.push([_rowStart, _contentBottom]);\n      var _columnWidth = (_contentWidth - _ownGap * (_ownCount - 1)) / _ownCount;\n      var _rules = [];\n      for (var _ri = 1; _ri < _ownCount; _ri++) {\n        var _ruleX = _contentLeft + _ri * _columnWidth + (_ri - 0.5) * _ownGap - vp.x;\n        for (var _rsi = 0; _rsi < _rows.length; _rsi++) {\n          if (_rows[_rsi][1] <= _rows[_rsi][0]) continue;\n          _rules.push({\n            x: _ruleX,\n            y1: _rows[_rsi][0] - vp.y,\n            y2: _rows[_rsi][1] - vp.y,\n            width: _ruleWidth,\n            color: cs.columnRuleColor,\n            style: _ruleStyle\n          });\n        }\n      }\n      if (_rules.length > 0) captured.columnRules = _rules;\n    }\n  }\n  var _bgC = captured.styles.backgroundColor;\n  var _hasBg = _bgC != null && _bgC !== \"\" && _bgC !== \"transparent\" && _bgC !== \"rgba(0, 0, 0, 0)\";\n  var _hasBgImage = captured.styles.backgroundImage != null && captured.styles.backgroundImage !== \"\" && captured.styles.backgroundImage !== \"none\";\n  var _hasMaskImage = captured.styles.maskImage != null && captured.styles.maskImage !== \"\" && captured.styles.maskImage !== \"none\";\n  var _btw = parseFloat(captured.styles.borderTopWidth || \"0\") || 0;\n  var _brw = parseFloat(captured.styles.borderRightWidth || \"0\") || 0;\n  var _bbw = parseFloat(captured.styles.borderBottomWidth || \"0\") || 0;\n  var _blw = parseFloat(captured.styles.borderLeftWidth || \"0\") || 0;\n  var _hasBorder = _btw > 0 || _brw > 0 || _bbw > 0 || _blw > 0;\n  var _hasPaint = _hasBg || _hasBgImage || _hasBorder || _hasMaskImage;\n  var _isInline = cs.display === \"inline\";\n  var _isBlockLevel = !_isInline && (cs.display === \"block\" || cs.display === \"list-item\" || cs.display === \"flex\" || cs.display === \"grid\" || cs.display === \"flow-root\" || cs.display === \"inline-block\" || cs.display === \"inline-flex\" || cs.display === \"inline-grid\");\n  var _inMultiColumn = false;\n  if (_isBlockLevel && _hasPaint) {\n    var _a = el.parentElement;\n    while (_a != null) {\n      var _ac = window.getComputedStyle(_a);\n      var _cc = parseInt(_ac.columnCount, 10);\n      var _cw = _ac.columnWidth;\n      if (Number.isFinite(_cc) && _cc > 1 || _cw != null && _cw !== \"auto\" && _cw !== \"\" && _cw !== \"normal\") {\n        _inMultiColumn = true;\n        break;\n      }\n      if (_a === document.body) break;\n      _a = _a.parentElement;\n    }\n  }\n  if (_hasPaint && (_isInline || _inMultiColumn)) {\n    var _cr = el.getClientRects();\n    if (_cr != null && _cr.length > 1) {\n      var _frags = [];\n      for (var _ci = 0; _ci < _cr.length; _ci++) {\n        var _f = _cr[_ci];\n        if (_f.width <= 0 || _f.height <= 0) continue;\n        _frags.push({\n          x: _f.left - vp.x,\n          y: _f.top - vp.y,\n          width: _f.width,\n          height: _f.height\n        });\n      }\n      if (_frags.length > 1) {\n        if (_hasBgImage) {\n          var _writingMode = String(cs.writingMode || \"horizontal-tb\").toLowerCase();\n          var _horizontalWriting = _writingMode === \"horizontal-tb\";\n          var _logicalSizes = [];\n          var _stitchedSize = 0;\n          for (var _gsi = 0; _gsi < _frags.length; _gsi++) {\n            var _logicalSize = _isInline ? _horizontalWriting ? _frags[_gsi].width : _frags[_gsi].height : _horizontalWriting ? _frags[_gsi].height : _frags[_gsi].width;\n            _logicalSizes.push(_logicalSize);\n            _stitchedSize += _logicalSize;\n          }\n          var _consumed = 0;\n          for (var _gfi = 0; _gfi < _frags.length; _gfi++) {\n            var _gf = _frags[_gfi];\n            var _physicalOffsetX = 0;\n            var _physicalOffsetY = 0;\n            if (_isInline) {\n              var _inlineOffset = cs.direction === \"rtl\" ? _stitchedSize - _consumed - _logicalSizes[_gfi] : _consumed;\n              if (_horizontalWriting) _physicalOffsetX = _inlineOffset;\n              else _physicalOffsetY = _inlineOffset;\n            } else if (_horizontalWriting) {\n              _physicalOffsetY = _consumed;\n            } else if (_writingMode === \"vertical-rl\" || _writingMode === \"sideways-rl\") {\n              _physicalOffsetX = _stitchedSize - _consumed - _logicalSizes[_gfi];\n            } else {\n              _physicalOffsetX = _consumed;\n            }\n            _gf.backgroundOffsetInStitchedBox = {\n              x: _physicalOffsetX,\n              y: _physicalOffsetY\n            };\n            _gf.backgroundPositioningArea = {\n              x: _gf.x - _physicalOffsetX,\n              y: _gf.y - _physicalOffsetY,\n              width: _horizontalWriting ? _isInline ? _stitchedSize : _gf.width : _isInline ? _gf.width : _stitchedSize,\n              height: _horizontalWriting ? _isInline ? _gf.height : _stitchedSize : _isInline ? _stitchedSize : _gf.height\n            };\n            _consumed += _logicalSizes[_gfi];\n          }\n        }\n        captured.inlineFragments = _frags;\n        captured.fragmentAxis = _isInline ? \"inline\" : \"block\";\n      }\n    }\n  }\n};\n\n// src/capture/script/walker/lists-counters.ts\nvar createListsCountersHandler = ({ normColor, resolveCounterStyle, isCustomCounterStyle, measureFontMetrics }) => {\n  const captureListsCounters = (el, cs, tag) => {\n    const isListItem = cs.display != null && cs.display.includes(\"list-item\");\n    let listMarkerIntrinsic = void 0;\n    let listItemIndex = void 0;\n    let markerFirstLineDy = void 0;\n    let markerFirstLineHeight = void 0;\n    if (isListItem) {\n      try {\n        const liTop = el.getBoundingClientRect().top;\n        const range = document.createRange();\n        range.selectNodeContents(el);\n        const rects = range.getClientRects();\n        if (rects.length > 0) {\n          markerFirstLineDy = rects[0].top - liTop;\n          markerFirstLineHeight = rects[0].height;\n        }\n      } catch (e) {\n      }\n      if (cs.listStyleImage && cs.listStyleImage !== \"none\") {\n        const u = /^url\\((?:\"|')?([^\"')]+)/.exec(cs.listStyleImage);\n        if (u != null) {\n          const img = new Image();\n          img.src = u[1];\n          if (img.naturalWidth > 0) listMarkerIntrinsic = { w: img.naturalWidth, h: img.naturalHeight };\n        }\n      }\n      const parent = el.parentElement;\n      if (parent != null) {\n        if (tag === \"li\") {\n          const siblings = Array.from(parent.children).filter((c) => c.tagName.toLowerCase() === \"li\");\n          const parentTag = parent.tagName.toLowerCase();\n          const reversed = parentTag === \"ol\" && parent.hasAttribute(\"reversed\");\n          let start = 1;\n          if (parentTag === \"ol\" && parent.hasAttribute(\"start\")) start = parseInt(parent.getAttribute(\"start\"), 10) || 1;\n          if (reversed) start = siblings.length;\n          let cur = start;\n          for (const s of siblings) {\n            if (s.hasAttribute(\"value\")) cur = parseInt(s.getAttribute(\"value\"), 10) || cur;\n            if (s === el) {\n              listItemIndex = cur;\n              break;\n            }\n            cur += reversed ? -1 : 1;\n          }\n        } else {\n          let cur = 1;\n          for (const s of parent.children) {\n            const sd = window.getComputedStyle(s).display;\n            if (sd != null && sd.includes(\"list-item\")) {\n              if (s === el) {\n                listItemIndex = cur;\n                break;\n              }\n              cur += 1;\n            }\n          }\n        }\n      }\n    }\n    const markerCs = isListItem ? window.getComputedStyle(el, \"::marker\") : null;\n    let markerContent = markerCs ? markerCs.content : void 0;\n    if (isListItem && resolveCounterStyle != null && listItemIndex != null) {\n      const lsType = cs.listStyleType;\n      const isCustom = lsType != null && isCustomCounterStyle != null && isCustomCounterStyle(lsType);\n      const noAuthorContent = markerContent == null || markerContent === \"\" || markerContent === \"normal\";\n      if (isCustom && noAuthorContent) {\n        const resolved = resolveCounterStyle(lsType, listItemIndex);\n        if (resolved != null) {\n          markerContent = '\"' + resolved.replace(/\\\\/g, \"\\\\\\\\\").replace(/\"/g, '\\\\\"') + '\"';\n        }\n      }\n    }\n    return {\n      listMarkerIntrinsic,\n      listItemIndex,\n      markerColor: markerCs ? normColor(markerCs.color) : void 0,\n      markerFontWeight: markerCs ? markerCs.fontWeight : void 0,\n      markerFontSize: markerCs ? markerCs.fontSize : void 0,\n      markerFontAscent: markerCs ? measureFontMetrics(markerCs).ascent : void 0,\n      markerContent,\n      markerFontFamily: markerCs ? markerCs.fontFamily : void 0,\n      markerFirstLineDy,\n      markerFirstLineHeight\n    };\n  };\n  return { captureListsCounters };\n};\n\n// src/capture/script/walker/replaced-elements.ts\nvar createReplacedElementsHandler = ({ vp }) => {\n  let _replacedIdx = 0;\n  const handleReplacedElement = (el, cs, tag, rect, captured, bordersOnlyCell) => {\n    if (bordersOnlyCell || cs.display === \"none\" || rect.width <= 0 || rect.height <= 0) return;\n    const isCustomEl = tag.indexOf(\"-\") > 0;\n    const hasOpenShadow = isCustomEl && el.shadowRoot != null;\n    const customElNeedsSnapshot = isCustomEl && hasOpenShadow;\n    const iframeRecursed = tag === \"iframe\" && captured._iframeRecursed === true;\n    if (tag === \"iframe\" && !iframeRecursed || tag === \"canvas\" || tag === \"video\" || tag === \"object\" || tag === \"embed\" || customElNeedsSnapshot) {\n      const { left: bl, right: br, top: bt, bottom: bb } = sideWidths(cs, \"border\", \"Width\");\n      const pl = parseFloat(cs.paddingLeft) || 0;\n      const pr = parseFloat(cs.paddingRight) || 0;\n      const pt = parseFloat(cs.paddingTop) || 0;\n      const pb = parseFloat(cs.paddingBottom) || 0;\n      const cw = rect.width - bl - br - pl - pr;\n      const ch = rect.height - bt - bb - pt - pb;\n      if (cw > 0 && ch > 0) {\n        const rid = \"dr\" + _replacedIdx++;\n        el.setAttribute(\"data-domotion-rid\", rid);\n        captured.replacedSnapshot = {\n          x: rect.left - vp.x + bl + pl,\n          y: rect.top - vp.y + bt + pt,\n          width: cw,\n          height: ch,\n          rid\n        };\n      }\n    }\n    if (captured.replacedSnapshot != null || captured.imageSrc != null) return;\n    const ti = parseFloat(cs.textIndent) || 0;\n    const ovX = cs.overflowX === \"hidden\" || cs.overflow === \"hidden\";\n    const hasBgImage = hasCssValue(cs.backgroundImage);\n    const phark = ti <= -1e3;\n    const modern = ti < 0 && ovX && cs.whiteSpace === \"nowrap\";\n    if ((phark || modern) && hasBgImage) {\n      const rid = \"dr\" + _replacedIdx++;\n      el.setAttribute(\"data-domotion-rid\", rid);\n      const titleText = (el.getAttribute && el.getAttribute(\"aria-label\") || captured.text || \"\").trim();\n      captured.replacedSnapshot = {\n        x: rect.left - vp.x,\n        y: rect.top - vp.y,\n        width: rect.width,\n        height: rect.height,\n        rid\n      };\n      captured.imageReplacement = { titleText };\n      captured.styles.backgroundImage = void 0;\n      captured.text = \"\";\n      captured.textSegments = void 0;\n    }\n  };\n  return { handleReplacedElement };\n};\n\n// src/capture/script/walker/masks-clips.ts\nvar createMasksClipsHandler = ({ vp, warn }) => {\n  const maskDefs = /* @__PURE__ */ new Map();\n  const maskRasters = /* @__PURE__ */ new Map();\n  const clipPathDefs = /* @__PURE__ */ new Map();\n  let maskRasterIdx = 0;\n  const computeMaskIntrinsic = (el, cs) => {\n    const primed = el && el.__domotionMaskIntrinsic;\n    if (Array.isArray(primed)) return primed;\n    const maskImage = cs.maskImage || cs.webkitMaskImage || \"\";\n    if (maskImage === \"\" || maskImage === \"none\") return [];\n    const layers = [];\n    let depth = 0, start = 0;\n    for (let i = 0; i < maskImage.length; i++) {\n      const ch = maskImage[i];\n      if (ch === \"(\") depth++;\n      else if (ch === \")\") depth--;\n      else if (ch === \",\" && depth === 0) {\n        layers.push(maskImage.slice(start, i));\n        start = i + 1;\n      }\n    }\n    layers.push(maskImage.slice(start));\n    return layers.map((layer) => {\n      const url = extractCssUrl(layer);\n      if (url == null) return null;\n      const image = new Image();\n      image.src = url;\n      const w = image.naturalWidth || 0;\n      const h = image.naturalHeight || 0;\n      return w > 0 && h > 0 ? { w, h, ratio: w / h } : null;\n    });\n  };\n  const discoverMasks = (el, cs, sel) => {\n    if (!cs.mask || cs.mask === \"none\" || cs.mask === \"\") return;\n    const doc = el.ownerDocument || document;\n    const miSrc = cs.maskImage || cs.webkitMaskImage || \"\";\n    const fragMatch = /^url\\(\\s*(?:\"|')?#([^\"')\\s]+)(?:\"|')?\\s*\\)$/i.exec(miSrc);\n    if (fragMatch != null) {\n      const fragId = fragMatch[1];\n      if (!maskDefs.has(fragId)) {\n        const target = doc.getElementById(fragId);\n        if (target != null && target.tagName.toLowerCase() === \"mask\") {\n          maskDefs.set(fragId, { id: fragId, outerHTML: xmlMarkup(target) });\n        } else {\n          warn(sel, \"mask\", 'mask-image fragment \"#' + fragId + '\" did not resolve to an inline <mask> element');\n        }\n      }\n      return;\n    }\n    const extFragMatch = /^url\\(\\s*(?:\"|')?[^\"')#]+#[^\"')\\s]+(?:\"|')?\\s*\\)$/i.exec(miSrc);\n    if (extFragMatch != null) {\n      warn(sel, \"mask\", 'external-file SVG mask-image fragment ref (url(\"./file.svg#id\")) could not be resolved \\u2014 element renders unmasked');\n      return;\n    }\n    const elementMatch = /^element\\(\\s*#([^)\\s]+)\\s*\\)$/i.exec(miSrc);\n    if (elementMatch != null) {\n      const refId = elementMatch[1];\n      if (maskRasters.has(refId)) return;\n      const refTarget = doc.getElementById(refId);\n      if (refTarget == null) {\n        warn(sel, \"mask\", \"mask-image: element(#\" + refId + \") target not found in document\");\n        return;\n      }\n      const refCs = window.getComputedStyle(refTarget);\n      if (refCs.display === \"none\" || refCs.visibility === \"hidden\") {\n        warn(sel, \"mask\", \"mask-image: element(#\" + refId + \") target is display:none / hidden \\u2014 emitting empty mask\");\n        maskRasters.set(refId, null);\n        return;\n      }\n      const refRect = refTarget.getBoundingClientRect();\n      if (refRect.width <= 0 || refRect.height <= 0) {\n        warn(sel, \"mask\", \"mask-image: element(#\" + refId + \") target has zero-area painted box \\u2014 emitting empty mask\");\n        maskRasters.set(refId, null);\n        return;\n      }\n      if (typeof refTarget.getAnimations === \"function\") {\n        try {\n          const anims = refTarget.getAnimations();\n          if (anims != null && anims.length > 0) {\n            warn(sel, \"mask\", \"mask-image: element(#\" + refId + \") target has \" + anims.length + \" active animation(s); the rasterized snapshot is t=0 only\");\n          }\n        } catch (e) {\n        }\n      }\n      const refRid = \"mr\" + maskRasterIdx++;\n      refTarget.setAttribute(\"data-domotion-rid\", refRid);\n      maskRasters.set(refId, {\n        id: refId,\n        rid: refRid,\n        width: refRect.width,\n        height: refRect.height,\n        rect: {\n          x: refRect.left - vp.x,\n          y: refRect.top - vp.y,\n          width: refRect.width,\n          height: refRect.height\n        }\n      });\n      return;\n    }\n    const supported = /^(?:repeating-)?(?:linear|radial)-gradient\\(/i.test(miSrc) || /^url\\(/i.test(miSrc);\n    if (!supported) {\n      warn(sel, \"mask\", \"non-gradient/non-url()/non-element() mask source \\u2014 not emitted\");\n    }\n  };\n  const discoverClipPaths = (el, cs, sel) => {\n    const cp = cs.clipPath;\n    if (!cp || cp === \"none\" || cp === \"\") return;\n    const doc = el.ownerDocument || document;\n    const cpShape = cp.replace(/\\b(?:content-box|padding-box|border-box|margin-box|fill-box|stroke-box|view-box)\\b/i, \"\").trim();\n    const fragMatch = /^url\\(\\s*(?:\"|')?#([^\"')\\s]+)(?:\"|')?\\s*\\)$/i.exec(cpShape);\n    if (fragMatch != null) {\n      const fragId = fragMatch[1];\n      if (!clipPathDefs.has(fragId)) {\n        const target = doc.getElementById(fragId);\n        if (target != null && target.tagName.toLowerCase() === \"clippath\") {\n          const units = (target.getAttribute(\"clipPathUnits\") || \"userSpaceOnUse\").toLowerCase();\n          clipPathDefs.set(fragId, {\n            id: fragId,\n            outerHTML: xmlMarkup(target),\n            clipPathUnits: units === \"objectboundingbox\" ? \"objectBoundingBox\" : \"userSpaceOnUse\"\n          });\n        } else {\n          warn(sel, \"clip-path\", 'clip-path fragment \"#' + fragId + '\" did not resolve to an inline <clipPath> element');\n        }\n      }\n      return;\n    }\n    const extFragMatch = /^url\\(\\s*(?:\"|')?[^\"')#]+#[^\"')\\s]+(?:\"|')?\\s*\\)$/i.exec(cpShape);\n    if (extFragMatch != null) {\n      warn(sel, \"clip-path\", 'external-file SVG fragment ref (url(\"./file.svg#id\")) could not be resolved \\u2014 element renders unclipped');\n    }\n  };\n  const filterDefs = /* @__PURE__ */ new Map();\n  let urlFilterRasterIdx = 0;\n  const filterContainsConvolveMatrix = (filter, seen) => {\n    if (filter == null || seen.has(filter)) return false;\n    seen.add(filter);\n    const descendants = filter.getElementsByTagName(\"*\");\n    for (let i = 0; i < descendants.length; i++) {\n      if ((descendants[i].localName || \"\").toLowerCase() === \"feconvolvematrix\") return true;\n    }\n    const href = filter.getAttribute(\"href\") || filter.getAttributeNS(\"http://www.w3.org/1999/xlink\", \"href\") || \"\";\n    if (!href.startsWith(\"#\")) return false;\n    const inherited = filter.ownerDocument.getElementById(href.slice(1));\n    return inherited != null && inherited.localName.toLowerCase() === \"filter\" && filterContainsConvolveMatrix(inherited, seen);\n  };\n  const discoverFilters = (el, cs, sel) => {\n    const f = cs.filter;\n    if (!f || f === \"none\" || f === \"\") return void 0;\n    const doc = el.ownerDocument || document;\n    let needsSourceRaster = false;\n    const re = /url\\(\\s*(?:\"|')?#([^\"')\\s]+)(?:\"|')?\\s*\\)/gi;\n    let m;\n    while ((m = re.exec(f)) != null) {\n      const fragId = m[1];\n      const target = doc.getElementById(fragId);\n      if (target != null && target.tagName.toLowerCase() === \"filter\") {\n        if (!filterDefs.has(fragId)) filterDefs.set(fragId, { id: fragId, outerHTML: xmlMarkup(target) });\n        if (el.namespaceURI === \"http://www.w3.org/1999/xhtml\" && filterContainsConvolveMatrix(target, /* @__PURE__ */ new Set())) {\n          needsSourceRaster = true;\n        }\n      } else {\n        warn(sel, \"filter\", 'filter fragment \"#' + fragId + '\" did not resolve to an inline <filter> element');\n      }\n    }\n    if (!needsSourceRaster) return void 0;\n    const token = \"uf\" + urlFilterRasterIdx++;\n    el.setAttribute(\"data-domotion-url-filter-raster\", token);\n    return token;\n  };\n  return { discoverMasks, computeMaskIntrinsic, discoverClipPaths, discoverFilters, maskDefs, maskRasters, clipPathDefs, filterDefs };\n};\n\n// src/capture/script/walker/form-controls.ts\nvar createFormControlsHandler = ({ normColor, resolvePseudo }) => {\n  const captureFormControls = (el, cs, tag) => {\n    const mk = tag === \"details\" ? (() => {\n      const sum = el.querySelector(\":scope > summary\");\n      if (sum == null) return { suppressed: false };\n      if (window.getComputedStyle(sum).listStyleType === \"none\") return { suppressed: true };\n      const mcs = window.getComputedStyle(sum, \"::marker\");\n      const mc = mcs.color;\n      if (mc === \"transparent\") return { suppressed: true };\n      const am = /^rgba\\(\\s*[0-9.]+\\s*,\\s*[0-9.]+\\s*,\\s*[0-9.]+\\s*,\\s*([0-9.]+)\\s*\\)$/.exec(mc);\n      if (am != null && parseFloat(am[1]) === 0) return { suppressed: true };\n      return {\n        suppressed: false,\n        color: normColor(mc),\n        fontSize: parseFloat(mcs.fontSize) || void 0,\n        inside: mcs.listStylePosition === \"inside\"\n      };\n    })() : null;\n    const out = {\n      inputType: tag === \"input\" ? el.type || \"text\" : void 0,\n      // CSS appearance / -webkit-appearance longhand for inputs. When 'none'\n      // (the appearance:none custom-styled pattern) the renderer suppresses\n      // its UA-default checkbox / radio chrome so the host's author-styled\n      // border + background show through, with only the :checked indicator\n      // overlaid on top. DM-285.\n      inputAppearance: tag === \"input\" ? cs.webkitAppearance || cs.appearance || \"\" : void 0,\n      checked: tag === \"input\" && (el.type === \"checkbox\" || el.type === \"radio\") ? !!el.checked : void 0,\n      indeterminate: tag === \"input\" && el.type === \"checkbox\" ? !!el.indeterminate : void 0,\n      disabled: tag === \"input\" || tag === \"button\" || tag === \"select\" || tag === \"textarea\" ? !!el.disabled : void 0,\n      progressValue: tag === \"progress\" ? el.hasAttribute(\"value\") ? +el.value : void 0 : void 0,\n      progressMax: tag === \"progress\" ? el.max || 1 : void 0,\n      meterValue: tag === \"meter\" ? el.value != null ? +el.value : void 0 : void 0,\n      meterMin: tag === \"meter\" ? el.min || 0 : void 0,\n      meterMax: tag === \"meter\" ? el.max || 1 : void 0,\n      meterLow: tag === \"meter\" ? el.low != null ? +el.low : void 0 : void 0,\n      meterHigh: tag === \"meter\" ? el.high != null ? +el.high : void 0 : void 0,\n      meterOptimum: tag === \"meter\" ? el.optimum != null ? +el.optimum : void 0 : void 0,\n      detailsOpen: tag === \"details\" ? !!el.open : void 0,\n      // Detect if author CSS hid the summary's UA disclosure marker. If so,\n      // skip painting our own triangle — the author's custom marker (typically\n      // a ::before / ::after pseudo) is the only one that should show.\n      //   - `list-style: none` / `list-style-type: none` removes the disclosure\n      //     marker entirely (the marker IS a list-item ::marker with\n      //     list-style-type `disclosure-closed`/`disclosure-open`; setting it to\n      //     `none` drops it, exactly as for a styled <li>). This is the common\n      //     idiom — `summary { list-style: none }` plus a custom ::after caret.\n      //     DM-1115. Note `display: flex` on the summary does NOT itself suppress\n      //     the marker — Chrome still paints it when list-style-type is a\n      //     disclosure value, so we key off list-style-type, not display.\n      //   - `::marker { color: transparent }` is the other author technique for\n      //     hiding the UA triangle without changing the box model. DM-448.\n      summaryMarkerSuppressed: tag === \"details\" ? mk == null || mk.suppressed : void 0,\n      // DM-1123: when the disclosure marker IS shown, Chrome paints the\n      // triangle in the computed `::marker` color, at the `::marker` font-size,\n      // and (for the UA-default `list-style-position: inside`) at the summary's\n      // content-start — not in the summary's text color at a fixed 0.7em\n      // outside the padding. Capture those three so the renderer can match it.\n      summaryMarkerColor: mk != null && !mk.suppressed ? mk.color : void 0,\n      summaryMarkerFontSize: mk != null && !mk.suppressed ? mk.fontSize : void 0,\n      summaryMarkerInside: mk != null && !mk.suppressed ? mk.inside : void 0,\n      // DM-1152: `::details-content` (Chrome 131+) styles the disclosure body\n      // separately from the summary. When an OPEN <details> styles it with a\n      // border-top and/or background, Chrome paints a separator line +\n      // background over the content area below the summary — neither of which\n      // round-trips through plain element capture (the pseudo wraps the real\n      // content children rather than generating its own DOM node). Capture the\n      // border-top color/width + background so the renderer can synthesize the\n      // box; geometry is derived from the details + summary rects at render\n      // time. Only emitted when open AND the pseudo carries non-default paint.\n      detailsContentBox: tag === \"details\" && el.open ? (() => {\n        const dc = window.getComputedStyle(el, \"::details-content\");\n        const isPaint = (c) => c != null && c !== \"\" && c !== \"transparent\" && !/^rgba\\(\\s*[0-9.]+\\s*,\\s*[0-9.]+\\s*,\\s*[0-9.]+\\s*,\\s*0\\s*\\)$/.test(c);\n        const btw = parseFloat(dc.borderTopWidth) || 0;\n        const hasBorder = btw > 0 && isPaint(dc.borderTopColor);\n        const hasBg = isPaint(dc.backgroundColor);\n        if (!hasBorder && !hasBg) return void 0;\n        return {\n          borderTopWidth: hasBorder ? btw : 0,\n          borderTopColor: hasBorder ? normColor(dc.borderTopColor) : void 0,\n          bg: hasBg ? normColor(dc.backgroundColor) : void 0,\n          paddingBottom: parseFloat(cs.paddingBottom) || 0,\n          borderLeftWidth: parseFloat(cs.borderLeftWidth) || 0,\n          borderRightWidth: parseFloat(cs.borderRightWidth) || 0,\n          borderBottomWidth: parseFloat(cs.borderBottomWidth) || 0\n        };\n      })() : void 0,\n      // Native chevron only when the select keeps UA chrome — appearance:\n      // none means the page draws its own arrow via background-image, and\n      // we should not stack our default chevron on top. DM-308.\n      selectChevron: tag === \"select\" && el.size <= 1 && !el.multiple && cs.appearance !== \"none\" && cs.webkitAppearance !== \"none\",\n      selectDisplayText: tag === \"select\" && el.size <= 1 && !el.multiple ? el.selectedOptions && el.selectedOptions.length > 0 ? (el.selectedOptions[0].textContent || \"\").trim() : el.options && el.options.length > 0 ? (el.options[0].textContent || \"\").trim() : \"\" : void 0,\n      // Listbox-mode selects (size > 1 or multiple) flatten their option /\n      // optgroup children into a captured row list. The renderer walks this\n      // list and paints one row per entry inside the select's content rect.\n      // Optgroup labels are emitted as italic+bold rows that don't count\n      // against selection. DM-282.\n      selectListboxOptions: tag === \"select\" && (el.size > 1 || el.multiple) ? (function() {\n        const list = [];\n        const hostRect = el.getBoundingClientRect();\n        const row = (o, extra) => {\n          const ocs = window.getComputedStyle(o);\n          const or = o.getBoundingClientRect();\n          const canvas = document.createElement(\"canvas\");\n          const ctx = canvas.getContext(\"2d\");\n          let fontAscent;\n          if (ctx != null) {\n            ctx.font = `${ocs.fontStyle} ${ocs.fontWeight} ${ocs.fontSize} ${ocs.fontFamily}`;\n            fontAscent = ctx.measureText(\"Mxgp\").fontBoundingBoxAscent;\n          }\n          return {\n            text: (o.textContent || \"\").trim(),\n            selected: !!o.selected,\n            disabled: !!o.disabled,\n            ...extra,\n            // Unlike closed-select shadow parts, listbox OPTION elements\n            // expose real layout rects and computed author paint. Capture\n            // those browser-resolved facts instead of rebuilding row\n            // height and :checked styling from host-font heuristics.\n            x: or.left - hostRect.left,\n            y: or.top - hostRect.top,\n            width: or.width,\n            height: or.height,\n            backgroundColor: normColor(ocs.backgroundColor),\n            color: normColor(ocs.color),\n            paddingLeft: parseFloat(ocs.paddingLeft) || 0,\n            paddingTop: parseFloat(ocs.paddingTop) || 0,\n            fontSize: parseFloat(ocs.fontSize) || void 0,\n            fontFamily: ocs.fontFamily || void 0,\n            fontWeight: ocs.fontWeight || void 0,\n            fontStyle: ocs.fontStyle || void 0,\n            fontAscent\n          };\n        };\n        const kids = el.children;\n        for (let ki = 0; ki < kids.length; ki++) {\n          const c = kids[ki];\n          if (c.tagName === \"OPTGROUP\") {\n            list.push(row(c, { text: c.label || \"\", selected: false, isOptgroupLabel: true }));\n            const og = c.children;\n            for (let gi = 0; gi < og.length; gi++) {\n              const o = og[gi];\n              if (o.tagName !== \"OPTION\") continue;\n              list.push(row(o, { isOptgroupChild: true }));\n            }\n          } else if (c.tagName === \"OPTION\") {\n            list.push(row(c, {}));\n          }\n        }\n        return list;\n      })() : void 0,\n      accentColor: tag === \"input\" || tag === \"progress\" || tag === \"meter\" ? normColor(cs.accentColor || \"auto\") : void 0,\n      caretColor: tag === \"input\" || tag === \"textarea\" ? normColor(cs.caretColor || \"auto\") : void 0,\n      inputValue: tag === \"input\" ? el.value || \"\" : void 0,\n      inputMin: tag === \"input\" ? el.min || \"\" : void 0,\n      inputMax: tag === \"input\" ? el.max || \"\" : void 0,\n      inputStep: tag === \"input\" ? el.step || \"\" : void 0,\n      inputMultiple: tag === \"input\" ? !!el.multiple : void 0,\n      inputFileName: tag === \"input\" && el.type === \"file\" && el.files && el.files.length > 0 ? el.files[0].name : void 0\n    };\n    if (tag === \"progress\") {\n      const bar = resolvePseudo(el, \"progress-bar\");\n      const val = resolvePseudo(el, \"progress-value\");\n      out.progressBarBg = bar.matched && bar.backgroundColor !== \"\" ? normColor(bar.backgroundColor) : void 0;\n      out.progressBarBgImage = bar.matched && bar.backgroundImage !== \"\" ? bar.backgroundImage : void 0;\n      out.progressBarRadius = bar.matched && bar.borderRadius !== \"\" ? bar.borderRadius : void 0;\n      out.progressValueBg = val.matched && val.backgroundColor !== \"\" ? normColor(val.backgroundColor) : void 0;\n      out.progressValueBgImage = val.matched && val.backgroundImage !== \"\" ? val.backgroundImage : void 0;\n      out.progressValueRadius = val.matched && val.borderRadius !== \"\" ? val.borderRadius : void 0;\n    }\n    if (tag === \"meter\") {\n      const bar = resolvePseudo(el, \"meter-bar\");\n      const opt = resolvePseudo(el, \"meter-optimum\");\n      const sub = resolvePseudo(el, \"meter-suboptimum\");\n      const elg = resolvePseudo(el, \"meter-even-less-good\");\n      out.meterBarBg = bar.matched && bar.backgroundColor !== \"\" ? normColor(bar.backgroundColor) : void 0;\n      out.meterBarBgImage = bar.matched && bar.backgroundImage !== \"\" ? bar.backgroundImage : void 0;\n      out.meterBarRadius = bar.matched && bar.borderRadius !== \"\" ? bar.borderRadius : void 0;\n      out.meterOptimumBg = opt.matched && opt.backgroundColor !== \"\" ? normColor(opt.backgroundColor) : void 0;\n      out.meterOptimumBgImage = opt.matched && opt.backgroundImage !== \"\" ? opt.backgroundImage : void 0;\n      out.meterSuboptimumBg = sub.matched && sub.backgroundColor !== \"\" ? normColor(sub.backgroundColor) : void 0;\n      out.meterSuboptimumBgImage = sub.matched && sub.backgroundImage !== \"\" ? sub.backgroundImage : void 0;\n      out.meterEvenLessGoodBg = elg.matched && elg.backgroundColor !== \"\" ? normColor(elg.backgroundColor) : void 0;\n      out.meterEvenLessGoodBgImage = elg.matched && elg.backgroundImage !== \"\" ? elg.backgroundImage : void 0;\n    }\n    if (tag === \"input\" && el.type === \"color\") {\n      const swatch = resolvePseudo(el, \"color-swatch\");\n      const wrap = resolvePseudo(el, \"color-swatch-wrapper\");\n      out.colorSwatchBg = swatch.matched && swatch.backgroundColor !== \"\" ? normColor(swatch.backgroundColor) : void 0;\n      out.colorSwatchBgImage = swatch.matched && swatch.backgroundImage !== \"\" ? swatch.backgroundImage : void 0;\n      out.colorSwatchBorder = swatch.matched && swatch.border !== \"\" ? swatch.border : void 0;\n      out.colorSwatchRadius = swatch.matched && swatch.borderRadius !== \"\" ? swatch.borderRadius : void 0;\n      out.colorSwatchWrapperPadding = wrap.matched && wrap.padding !== \"\" ? wrap.padding : void 0;\n    }\n    if (tag === \"input\" && el.type === \"number\") {\n      const spin = resolvePseudo(el, \"inner-spin-button\");\n      out.numberSpinButtonBg = spin.matched && spin.backgroundColor !== \"\" ? normColor(spin.backgroundColor) : void 0;\n      out.numberSpinButtonBorder = spin.matched && spin.border !== \"\" ? spin.border : void 0;\n      out.numberSpinButtonRadius = spin.matched && spin.borderRadius !== \"\" ? spin.borderRadius : void 0;\n    }\n    if (tag === \"input\" && el.type === \"search\") {\n      const cancel = resolvePseudo(el, \"search-cancel-button\");\n      out.searchCancelButtonBg = cancel.matched && cancel.backgroundColor !== \"\" ? normColor(cancel.backgroundColor) : void 0;\n      out.searchCancelButtonBorder = cancel.matched && cancel.border !== \"\" ? cancel.border : void 0;\n      out.searchCancelButtonRadius = cancel.matched && cancel.borderRadius !== \"\" ? cancel.borderRadius : void 0;\n    }\n    if (tag === \"input\" && el.type === \"range\") {\n      const ts = resolvePseudo(el, \"track\");\n      const ms = resolvePseudo(el, \"thumb\");\n      const elAppearance = cs.webkitAppearance || cs.appearance;\n      const customAppearance = elAppearance === \"none\";\n      const styledTrack = ts.matched || customAppearance;\n      const styledThumb = ms.matched || customAppearance;\n      out.rangeTrackBg = styledTrack && ts.backgroundColor !== \"\" ? normColor(ts.backgroundColor) : styledTrack ? \"rgba(0, 0, 0, 0)\" : void 0;\n      out.rangeTrackHeight = styledTrack ? ts.height : void 0;\n      out.rangeTrackRadius = styledTrack ? ts.borderRadius : void 0;\n      out.rangeTrackBgImage = styledTrack && ts.backgroundImage !== \"\" ? ts.backgroundImage : void 0;\n      out.rangeThumbBg = styledThumb && ms.backgroundColor !== \"\" ? normColor(ms.backgroundColor) : styledThumb ? \"rgba(0, 0, 0, 0)\" : void 0;\n      out.rangeThumbWidth = styledThumb ? ms.width : void 0;\n      out.rangeThumbHeight = styledThumb ? ms.height : void 0;\n      out.rangeThumbRadius = styledThumb ? ms.borderRadius : void 0;\n      out.rangeThumbBgImage = styledThumb && ms.backgroundImage !== \"\" ? ms.backgroundImage : void 0;\n      out.rangeTrackBorder = styledTrack && ts.border !== \"\" ? ts.border : void 0;\n      out.rangeThumbBorder = styledThumb && ms.border !== \"\" ? ms.border : void 0;\n      out.rangeThumbBoxShadow = styledThumb && ms.boxShadow !== \"\" ? ms.boxShadow : void 0;\n    }\n    if (tag === \"input\" && el.type === \"file\") {\n      const pseudoCs = window.getComputedStyle(el, \"::file-selector-button\");\n      out.fileButtonBg = normColor(pseudoCs.backgroundColor);\n      out.fileButtonColor = normColor(pseudoCs.color);\n      out.fileButtonBorder = pseudoCs.border;\n      out.fileButtonBorderRadius = pseudoCs.borderRadius;\n      out.fileButtonPadding = pseudoCs.padding;\n      out.fileButtonFontWeight = pseudoCs.fontWeight;\n      out.fileButtonFontSize = pseudoCs.fontSize;\n      out.fileButtonFontFamily = pseudoCs.fontFamily;\n      out.fileButtonMarginRight = pseudoCs.marginRight;\n      const c = document.createElement(\"canvas\");\n      const ctx = c.getContext(\"2d\");\n      if (ctx != null) {\n        const weight = pseudoCs.fontWeight || \"400\";\n        const size = pseudoCs.fontSize || \"13px\";\n        const family = pseudoCs.fontFamily || \"sans-serif\";\n        ctx.font = weight + \" \" + size + \" \" + family;\n        const label = el.multiple ? \"Choose Files\" : \"Choose File\";\n        out.fileButtonLabelWidth = ctx.measureText(label).width;\n      }\n    }\n    return out;\n  };\n  return { captureFormControls };\n};\n\n// src/capture/script/walker/transforms.ts\nvar transformHasRotationOrSkew = (transformStr) => {\n  if (!transformStr || transformStr === \"none\") return false;\n  const m2 = /^matrix\\(\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)/.exec(transformStr);\n  if (m2) {\n    const b = parseFloat(m2[2]);\n    const c = parseFloat(m2[3]);\n    return Math.abs(b) > 1e-6 || Math.abs(c) > 1e-6;\n  }\n  const m3 = /^matrix3d\\(\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)\\s*,\\s*[-\\d.eE]+\\s*,\\s*[-\\d.eE]+\\s*,\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)/.exec(transformStr);\n  if (m3) {\n    const b = parseFloat(m3[2]);\n    const c = parseFloat(m3[3]);\n    return Math.abs(b) > 1e-6 || Math.abs(c) > 1e-6;\n  }\n  if (/\\brotate(?:[XYZ])?\\(/.test(transformStr)) return true;\n  if (/\\bskew(?:[XY])?\\(/.test(transformStr)) return true;\n  return false;\n};\nvar composeEffectiveTransform = (cs) => {\n  const t = cs.translate;\n  const r = cs.rotate;\n  const s = cs.scale;\n  const tr = cs.transform;\n  const hasT = t && t !== \"none\";\n  const hasR = r && r !== \"none\";\n  const hasS = s && s !== \"none\";\n  const hasTr = tr && tr !== \"none\";\n  if (!hasT && !hasR && !hasS && !hasTr) return \"none\";\n  if (!hasT && !hasR && !hasS) return tr;\n  let m = new DOMMatrix();\n  if (hasT) {\n    const ts = t.split(/\\s+/).map((v) => parseFloat(v));\n    const tx = isFinite(ts[0]) ? ts[0] : 0;\n    const ty = ts.length > 1 && isFinite(ts[1]) ? ts[1] : 0;\n    const tz = ts.length > 2 && isFinite(ts[2]) ? ts[2] : 0;\n    m = m.translate(tx, ty, tz);\n  }\n  if (hasR) {\n    const tokens = r.trim().split(/\\s+/);\n    const last = tokens[tokens.length - 1];\n    const angleDeg = parseAngleToDeg(last);\n    if (tokens.length === 4) {\n      const ax = parseFloat(tokens[0]);\n      const ay = parseFloat(tokens[1]);\n      const az = parseFloat(tokens[2]);\n      m = m.rotateAxisAngle(ax, ay, az, angleDeg);\n    } else {\n      m = m.rotate(angleDeg);\n    }\n  }\n  if (hasS) {\n    const ts = s.trim().split(/\\s+/).map((v) => parseFloat(v));\n    const sx = isFinite(ts[0]) ? ts[0] : 1;\n    const sy = ts.length > 1 && isFinite(ts[1]) ? ts[1] : sx;\n    const sz = ts.length > 2 && isFinite(ts[2]) ? ts[2] : 1;\n    m = m.scale(sx, sy, sz);\n  }\n  if (hasTr) {\n    try {\n      m = m.multiply(new DOMMatrix(tr));\n    } catch {\n    }\n  }\n  if (m.is2D) {\n    return `matrix(${m.a}, ${m.b}, ${m.c}, ${m.d}, ${m.e}, ${m.f})`;\n  }\n  return `matrix3d(${m.m11}, ${m.m12}, ${m.m13}, ${m.m14}, ${m.m21}, ${m.m22}, ${m.m23}, ${m.m24}, ${m.m31}, ${m.m32}, ${m.m33}, ${m.m34}, ${m.m41}, ${m.m42}, ${m.m43}, ${m.m44})`;\n};\nvar parseAngleToDeg = (a) => {\n  const m = /^([-+]?\\d*\\.?\\d+(?:[eE][-+]?\\d+)?)(deg|rad|grad|turn)?$/.exec(a);\n  if (!m) return 0;\n  const n = parseFloat(m[1]);\n  const u = m[2] || \"deg\";\n  if (u === \"deg\") return n;\n  if (u === \"rad\") return n * 180 / Math.PI;\n  if (u === \"grad\") return n * 360 / 400;\n  if (u === \"turn\") return n * 360;\n  return n;\n};\nvar createTransformsHandler = () => {\n  const wrapWithFrozenTransform = (el, cs, captureInner) => {\n    const originalTransform = composeEffectiveTransform(cs);\n    const hasTransform = originalTransform && originalTransform !== \"none\";\n    if (!hasTransform) {\n      return captureInner(el, cs, null, null);\n    }\n    const needsFreeze = transformHasRotationOrSkew(originalTransform) || /\\brotate\\b/.test(originalTransform) || /\\bskew/.test(originalTransform);\n    if (needsFreeze) {\n      const inlineTransform = el.style.transform;\n      const inlineRotate = el.style.rotate;\n      const inlineScale = el.style.scale;\n      const inlineTranslate = el.style.translate;\n      el.style.transform = \"translate(0)\";\n      el.style.rotate = \"none\";\n      el.style.scale = \"none\";\n      el.style.translate = \"none\";\n      try {\n        return captureInner(el, cs, originalTransform, cs.transformOrigin);\n      } finally {\n        el.style.transform = inlineTransform;\n        el.style.rotate = inlineRotate;\n        el.style.scale = inlineScale;\n        el.style.translate = inlineTranslate;\n      }\n    }\n    return captureInner(el, cs, originalTransform, cs.transformOrigin);\n  };\n  const threadFrozenTransform = (cs, frozenTransform, _frozenTransformOrigin) => ({\n    // For elements with rotation/skew, record the ORIGINAL transform so the\n    // renderer wraps a `<g transform=...>` around the (un-rotated) captured\n    // rect. For pure translate/scale (or no transform), record `'none'` so\n    // the renderer skips the wrap and paints the rect at its captured (=live)\n    // position directly. frozenTransform is non-null whenever the element\n    // originally had a non-none transform; we only stash the rotation/skew\n    // string back into styles.transform.\n    transform: frozenTransform != null && transformHasRotationOrSkew(frozenTransform) ? frozenTransform : \"none\",\n    transformOrigin: cs.transformOrigin,\n    // DM-751: extract `matrix3d` translateZ so the paint-order sort can\n    // honor 3D Z position when the parent element has\n    // `transform-style: preserve-3d` (which sorts children by Z in 3D\n    // space, not by z-index per CSS Transforms 2 §6). We can't represent\n    // perspective / actual 3D rendering in SVG; this is paint-order only.\n    translateZ: (function() {\n      const tt = cs.transform;\n      if (tt == null || tt === \"none\" || tt === \"\") return void 0;\n      const m3 = /^matrix3d\\(([^)]+)\\)/.exec(tt);\n      if (m3 == null) return void 0;\n      const parts = m3[1].split(\",\").map((s) => parseFloat(s.trim()));\n      const tz = parts[14];\n      return Number.isFinite(tz) && tz !== 0 ? tz : void 0;\n    })(),\n    // DM-587: separately flag elements that ORIGINALLY had a non-none\n    // transform — even though we discard the value to suppress the wrap,\n    // CSS Transforms 2 §4 says any non-none transform creates a stacking\n    // context, and `establishesStackingContext` needs to know that for\n    // z-index ordering (e.g. a `transform: translate(0)` on a positioned\n    // element creates an SC that traps its descendants' z-index resolution).\n    // `frozenTransform != null` is true exactly when the live cs.transform\n    // was non-none at capture time.\n    transformCreatesSc: frozenTransform != null\n  });\n  return { wrapWithFrozenTransform, threadFrozenTransform };\n};\n\n// src/capture/script/walker/collapsed-border.ts\nvar COLLAPSED_BORDER_STYLE_RANK = {\n  none: 0,\n  inset: 2,\n  groove: 3,\n  outset: 4,\n  ridge: 5,\n  dotted: 6,\n  dashed: 7,\n  solid: 8,\n  double: 9\n};\nfunction collapsedBorderStyle(style) {\n  if (style === \"inset\") return \"ridge\";\n  if (style === \"outset\") return \"groove\";\n  return style;\n}\nfunction physicalSidesForTable(writingMode, direction) {\n  if (writingMode === \"horizontal-tb\") {\n    return {\n      blockStart: \"top\",\n      blockEnd: \"bottom\",\n      inlineStart: direction === \"ltr\" ? \"left\" : \"right\",\n      inlineEnd: direction === \"ltr\" ? \"right\" : \"left\"\n    };\n  }\n  const blockStart = writingMode === \"vertical-rl\" || writingMode === \"sideways-rl\" ? \"right\" : \"left\";\n  return {\n    blockStart,\n    blockEnd: blockStart === \"right\" ? \"left\" : \"right\",\n    inlineStart: direction === \"ltr\" ? \"top\" : \"bottom\",\n    inlineEnd: direction === \"ltr\" ? \"bottom\" : \"top\"\n  };\n}\nvar emptyEdge = () => ({ winner: null, doNotFill: false });\nfunction createCollapsedBorderGrid(rows, columns) {\n  return {\n    rows,\n    columns,\n    rowAxis: Array.from({ length: rows + 1 }, () => Array.from({ length: columns }, () => emptyEdge())),\n    columnAxis: Array.from({ length: rows }, () => Array.from({ length: columns + 1 }, () => emptyEdge()))\n  };\n}\nfunction shouldReplaceCollapsedEdge(source, edge) {\n  if (edge.doNotFill) return false;\n  const current = edge.winner;\n  if (current == null || source.style === \"hidden\") return true;\n  if (current.style === \"hidden\") return false;\n  if (source.w !== current.w) return source.w > current.w;\n  return (COLLAPSED_BORDER_STYLE_RANK[source.style] ?? 0) > (COLLAPSED_BORDER_STYLE_RANK[current.style] ?? 0);\n}\nfunction mergeCollapsedEdge(edge, source) {\n  if (source == null || source.style === \"none\") return;\n  if (shouldReplaceCollapsedEdge(source, edge)) edge.winner = source;\n}\nfunction mergeCollapsedBorderBox(grid, row, column, rowspan, colspan, physical, writingMode, direction, markSpanInteriors = false) {\n  const rowEnd = Math.min(grid.rows, row + rowspan);\n  const columnEnd = Math.min(grid.columns, column + colspan);\n  if (row < 0 || column < 0 || row >= rowEnd || column >= columnEnd) return;\n  const logical = physicalSidesForTable(writingMode, direction);\n  for (let c = column; c < columnEnd; c++) {\n    mergeCollapsedEdge(grid.rowAxis[row][c], physical[logical.blockStart] ?? null);\n    mergeCollapsedEdge(grid.rowAxis[rowEnd][c], physical[logical.blockEnd] ?? null);\n  }\n  for (let r = row; r < rowEnd; r++) {\n    mergeCollapsedEdge(grid.columnAxis[r][column], physical[logical.inlineStart] ?? null);\n    mergeCollapsedEdge(grid.columnAxis[r][columnEnd], physical[logical.inlineEnd] ?? null);\n  }\n  if (!markSpanInteriors || rowEnd - row <= 1 && columnEnd - column <= 1) return;\n  for (let r = row; r < rowEnd; r++) {\n    for (let c = column + 1; c < columnEnd; c++) {\n      const edge = grid.columnAxis[r][c];\n      if (edge.winner == null) edge.doNotFill = true;\n    }\n  }\n  for (let r = row + 1; r < rowEnd; r++) {\n    for (let c = column; c < columnEnd; c++) {\n      const edge = grid.rowAxis[r][c];\n      if (edge.winner == null) edge.doNotFill = true;\n    }\n  }\n}\nvar canPaintCollapsedEdge = (edge) => edge?.winner != null && edge.winner.style !== \"none\" && edge.winner.style !== \"hidden\" && edge.winner.w > 0;\nfunction compareCollapsedEdgesForPaint(lhs, rhs) {\n  const lp = canPaintCollapsedEdge(lhs), rp = canPaintCollapsedEdge(rhs);\n  if (lp && rp) {\n    if (lhs.winner.w !== rhs.winner.w) return lhs.winner.w > rhs.winner.w ? 1 : -1;\n    if (lhs.winner.style === rhs.winner.style) {\n      if (lhs.winner.order === rhs.winner.order) return 0;\n      return lhs.winner.order < rhs.winner.order ? 1 : -1;\n    }\n    return (COLLAPSED_BORDER_STYLE_RANK[lhs.winner.style] ?? 0) > (COLLAPSED_BORDER_STYLE_RANK[rhs.winner.style] ?? 0) ? 1 : -1;\n  }\n  if (!lp && !rp) return 0;\n  return lp ? 1 : -1;\n}\nvar winnerWidth = (edge) => canPaintCollapsedEdge(edge) ? edge.winner.w : 0;\nvar edgeAt = (rows, row, column) => row >= 0 && row < rows.length && column >= 0 && column < rows[row].length ? rows[row][column] : null;\nvar collapsedBorderPaintIndex = (rect, columns) => rect.row * (columns + 1) * 2 + rect.column * 2 + (rect.axis === \"row\" ? 1 : 0);\nfunction jointDecision(before, after, over, under, axis, end, overFragmentBoundary = false, underFragmentBoundary = false) {\n  if (!end) {\n    if (overFragmentBoundary) over = null;\n    if (underFragmentBoundary && axis === \"row\") under = null;\n  } else {\n    if (overFragmentBoundary && axis === \"row\") over = null;\n    if (underFragmentBoundary) under = null;\n  }\n  const inlineCompare = compareCollapsedEdgesForPaint(before, after);\n  const inlineWinner = inlineCompare === 1 ? before : after;\n  const blockCompare = compareCollapsedEdgesForPaint(over, under);\n  const blockWinner = blockCompare === 1 ? over : under;\n  const inlineVsBlock = compareCollapsedEdgesForPaint(inlineWinner, blockWinner);\n  const wins = axis === \"row\" ? inlineVsBlock !== -1 && inlineCompare !== (end ? -1 : 1) : inlineVsBlock !== 1 && blockCompare !== (end ? -1 : 1);\n  const blockWidthSuppressed = !end ? overFragmentBoundary || underFragmentBoundary && axis === \"row\" : overFragmentBoundary && axis === \"row\" || underFragmentBoundary;\n  return {\n    inlineWidth: winnerWidth(blockWinner),\n    blockWidth: blockWidthSuppressed ? 0 : winnerWidth(inlineWinner),\n    wins\n  };\n}\nfunction collapsedBorderFragmentLogicalRects(grid, inlineLines, sections) {\n  if (inlineLines.length !== grid.columns + 1)\n    throw new Error(\"collapsed-border inline tracks do not match the edge grid\");\n  const rects = [];\n  let previousPaintedRow = null;\n  for (const section of sections) {\n    const sectionRectStart = rects.length;\n    const lines = section.blockLines;\n    if (lines.length < 2) continue;\n    const finalRowEdge = section.rowStart + lines.length - 1;\n    for (let tableRow = section.rowStart; tableRow <= finalRowEdge; tableRow++) {\n      const localRow = tableRow - section.rowStart;\n      const startRow = localRow === 0;\n      const endRow = localRow === lines.length - 1;\n      const startFragmented = startRow && section.startRowFragmented === true;\n      const endFragmented = endRow && section.endRowFragmented === true;\n      const overBoundary = startRow && section.hasContentBefore === true;\n      const underBoundary = endRow && section.hasContentAfter === true;\n      if (!startFragmented && !endFragmented && previousPaintedRow !== tableRow) {\n        for (let column = 0; column < grid.columns; column++) {\n          const edge = edgeAt(grid.rowAxis, tableRow, column);\n          if (!canPaintCollapsedEdge(edge)) continue;\n          const start = jointDecision(\n            edgeAt(grid.rowAxis, tableRow, column - 1),\n            edge,\n            edgeAt(grid.columnAxis, tableRow - 1, column),\n            edgeAt(grid.columnAxis, tableRow, column),\n            \"row\",\n            false,\n            overBoundary,\n            underBoundary\n          );\n          const end = jointDecision(\n            edge,\n            edgeAt(grid.rowAxis, tableRow, column + 1),\n            edgeAt(grid.columnAxis, tableRow - 1, column + 1),\n            edgeAt(grid.columnAxis, tableRow, column + 1),\n            \"row\",\n            true,\n            overBoundary,\n            underBoundary\n          );\n          let inlineStart = inlineLines[column];\n          let inlineSize = inlineLines[column + 1] - inlineStart;\n          const startDelta = start.inlineWidth / 2;\n          inlineStart += start.wins ? -startDelta : startDelta;\n          inlineSize += start.wins ? startDelta : -startDelta;\n          const endDelta = end.inlineWidth / 2;\n          inlineSize += end.wins ? endDelta : -endDelta;\n          const width = edge.winner.w;\n          rects.push({\n            axis: \"row\",\n            row: tableRow,\n            column,\n            inlineStart,\n            blockStart: overBoundary ? lines[localRow] : lines[localRow] - width / 2,\n            inlineSize,\n            blockSize: overBoundary || underBoundary ? width / 2 : width,\n            winner: edge.winner\n          });\n        }\n      }\n      if (localRow + 1 >= lines.length) continue;\n      const endSegmentRow = localRow + 1 === lines.length - 1;\n      const endSegmentFragmented = endSegmentRow && section.endRowFragmented === true;\n      const underSegmentBoundary = endSegmentRow && section.hasContentAfter === true;\n      for (let column = 0; column <= grid.columns; column++) {\n        const edge = edgeAt(grid.columnAxis, tableRow, column);\n        if (!canPaintCollapsedEdge(edge)) continue;\n        const start = jointDecision(\n          edgeAt(grid.rowAxis, tableRow, column - 1),\n          edgeAt(grid.rowAxis, tableRow, column),\n          edgeAt(grid.columnAxis, tableRow - 1, column),\n          edge,\n          \"column\",\n          false,\n          overBoundary,\n          underSegmentBoundary\n        );\n        const end = jointDecision(\n          edgeAt(grid.rowAxis, tableRow + 1, column - 1),\n          edgeAt(grid.rowAxis, tableRow + 1, column),\n          edge,\n          edgeAt(grid.columnAxis, tableRow + 1, column),\n          \"column\",\n          true,\n          overBoundary,\n          underSegmentBoundary\n        );\n        let blockStart = lines[localRow];\n        let blockSize = lines[localRow + 1] - blockStart;\n        if (!startFragmented) {\n          const delta = start.blockWidth / 2;\n          blockStart += start.wins ? -delta : delta;\n          blockSize += start.wins ? delta : -delta;\n        }\n        if (!endSegmentFragmented) {\n          const delta = end.blockWidth / 2;\n          blockSize += end.wins ? delta : -delta;\n        }\n        rects.push({\n          axis: \"column\",\n          row: tableRow,\n          column,\n          inlineStart: inlineLines[column] - edge.winner.w / 2,\n          blockStart,\n          inlineSize: edge.winner.w,\n          blockSize,\n          winner: edge.winner\n        });\n      }\n    }\n    const sectionRects = rects.splice(sectionRectStart);\n    sectionRects.sort((a, b) => collapsedBorderPaintIndex(a, grid.columns) - collapsedBorderPaintIndex(b, grid.columns));\n    rects.push(...sectionRects);\n    previousPaintedRow = section.endRowFragmented ? null : finalRowEdge;\n  }\n  return rects;\n}\nfunction collapsedBorderLogicalRects(grid, inlineLines, blockLines) {\n  if (inlineLines.length !== grid.columns + 1 || blockLines.length !== grid.rows + 1)\n    throw new Error(\"collapsed-border track coordinates do not match the edge grid\");\n  const rects = [];\n  for (let row = 0; row <= grid.rows; row++) {\n    for (let column = 0; column < grid.columns; column++) {\n      const edge = grid.rowAxis[row][column];\n      if (!canPaintCollapsedEdge(edge)) continue;\n      const start = jointDecision(\n        edgeAt(grid.rowAxis, row, column - 1),\n        edge,\n        edgeAt(grid.columnAxis, row - 1, column),\n        edgeAt(grid.columnAxis, row, column),\n        \"row\",\n        false\n      );\n      const end = jointDecision(\n        edge,\n        edgeAt(grid.rowAxis, row, column + 1),\n        edgeAt(grid.columnAxis, row - 1, column + 1),\n        edgeAt(grid.columnAxis, row, column + 1),\n        \"row\",\n        true\n      );\n      let inlineStart = inlineLines[column];\n      let inlineSize = inlineLines[column + 1] - inlineStart;\n      const startDelta = start.inlineWidth / 2;\n      inlineStart += start.wins ? -startDelta : startDelta;\n      inlineSize += start.wins ? startDelta : -startDelta;\n      const endDelta = end.inlineWidth / 2;\n      inlineSize += end.wins ? endDelta : -endDelta;\n      rects.push({ axis: \"row\", row, column, inlineStart, blockStart: blockLines[row] - edge.winner.w / 2, inlineSize, blockSize: edge.winner.w, winner: edge.winner });\n    }\n  }\n  for (let row = 0; row < grid.rows; row++) {\n    for (let column = 0; column <= grid.columns; column++) {\n      const edge = grid.columnAxis[row][column];\n      if (!canPaintCollapsedEdge(edge)) continue;\n      const start = jointDecision(\n        edgeAt(grid.rowAxis, row, column - 1),\n        edgeAt(grid.rowAxis, row, column),\n        edgeAt(grid.columnAxis, row - 1, column),\n        edge,\n        \"column\",\n        false\n      );\n      const end = jointDecision(\n        edgeAt(grid.rowAxis, row + 1, column - 1),\n        edgeAt(grid.rowAxis, row + 1, column),\n        edge,\n        edgeAt(grid.columnAxis, row + 1, column),\n        \"column\",\n        true\n      );\n      let blockStart = blockLines[row];\n      let blockSize = blockLines[row + 1] - blockStart;\n      const startDelta = start.blockWidth / 2;\n      blockStart += start.wins ? -startDelta : startDelta;\n      blockSize += start.wins ? startDelta : -startDelta;\n      const endDelta = end.blockWidth / 2;\n      blockSize += end.wins ? endDelta : -endDelta;\n      rects.push({ axis: \"column\", row, column, inlineStart: inlineLines[column] - edge.winner.w / 2, blockStart, inlineSize: edge.winner.w, blockSize, winner: edge.winner });\n    }\n  }\n  rects.sort((a, b) => collapsedBorderPaintIndex(a, grid.columns) - collapsedBorderPaintIndex(b, grid.columns));\n  return rects;\n}\n\n// src/capture/script/walker/borders-backgrounds.ts\nvar physicalComputedPaintLength = (value, effectiveZoom) => {\n  if (effectiveZoom === 1) return value;\n  const number = parseFloat(value);\n  if (!Number.isFinite(number)) return value;\n  return `${Math.round(number * effectiveZoom * 1e6) / 1e6}px`;\n};\nvar physicalComputedTileSize = (value, effectiveZoom) => {\n  if (effectiveZoom === 1) return value;\n  return value.replace(/(-?(?:\\d+(?:\\.\\d+)?|\\.\\d+))px\\b/g, (_match, number) => `${Math.round(parseFloat(number) * effectiveZoom * 1e6) / 1e6}px`);\n};\nvar tableGridRectFromCaptions = (tableRect, writingMode, captions) => {\n  const vertical = /^(?:vertical|sideways)-/.test(writingMode);\n  const blockReverse = writingMode === \"vertical-rl\" || writingMode === \"sideways-rl\";\n  const blockExtent = vertical ? tableRect.width : tableRect.height;\n  const logicalEdges = (rect) => {\n    if (!vertical) return { start: rect.top - tableRect.top, end: rect.bottom - tableRect.top };\n    if (blockReverse) return { start: tableRect.right - rect.right, end: tableRect.right - rect.left };\n    return { start: rect.left - tableRect.left, end: rect.right - tableRect.left };\n  };\n  let blockStart = 0;\n  let blockEnd = blockExtent;\n  let sawBottom = false;\n  for (const caption of captions) {\n    const edges = logicalEdges(caption.rect);\n    if (caption.side === \"bottom\") {\n      if (!sawBottom) {\n        blockEnd = edges.start - caption.marginBlockStart;\n        sawBottom = true;\n      }\n    } else {\n      blockStart = edges.end + caption.marginBlockEnd;\n    }\n  }\n  if (!vertical) {\n    return {\n      x: tableRect.left,\n      y: tableRect.top + blockStart,\n      width: tableRect.width,\n      height: blockEnd - blockStart\n    };\n  }\n  return {\n    x: blockReverse ? tableRect.right - blockEnd : tableRect.left + blockStart,\n    y: tableRect.top,\n    width: blockEnd - blockStart,\n    height: tableRect.height\n  };\n};\nvar createBordersBackgroundsHandler = ({ normColor, normGradientColors, resolvePlaceholderShownBg, resolveCornerRadius, effectiveZoomFor = () => 1, warn = () => {\n}, shortSelector = () => \"\", vp = { x: 0, y: 0 } }) => {\n  const isUaColorBorder = (tag, el, cs, side) => tag === \"input\" && el.type === \"color\" && normColor(cs[side], cs.color).replace(/\\s+/g, \"\") === \"rgb(0,0,0)\";\n  const tintedBorderColor = (tag, el, cs, side) => isUaColorBorder(tag, el, cs, side) ? \"rgb(118,118,118)\" : normColor(cs[side], cs.color);\n  const pseudoCreatesInflowFragment = (el, pseudo) => {\n    const styleWindow = el.ownerDocument?.defaultView ?? window;\n    const pcs = styleWindow.getComputedStyle(el, pseudo);\n    const content = pcs.content;\n    return content != null && content !== \"\" && content !== \"none\" && content !== \"normal\" && pcs.display !== \"none\" && pcs.position !== \"absolute\" && pcs.position !== \"fixed\";\n  };\n  const nodeCreatesInflowFragment = (node) => {\n    if (node.nodeType === 3) {\n      const range = node.ownerDocument.createRange();\n      range.selectNodeContents(node);\n      const hasFragment = range.getClientRects().length > 0;\n      if (range.detach) range.detach();\n      return hasFragment;\n    }\n    if (node.nodeType !== 1) return false;\n    const styleWindow = node.ownerDocument?.defaultView ?? window;\n    const ncs = styleWindow.getComputedStyle(node);\n    if (ncs.display === \"none\" || ncs.position === \"absolute\" || ncs.position === \"fixed\") return false;\n    if (ncs.display !== \"contents\") return true;\n    if (pseudoCreatesInflowFragment(node, \"::before\")) return true;\n    for (const child of node.childNodes) if (nodeCreatesInflowFragment(child)) return true;\n    return pseudoCreatesInflowFragment(node, \"::after\");\n  };\n  const tableCellHasInflowFragments = (cell) => {\n    if (pseudoCreatesInflowFragment(cell, \"::before\")) return true;\n    for (const child of cell.childNodes) if (nodeCreatesInflowFragment(child)) return true;\n    return pseudoCreatesInflowFragment(cell, \"::after\");\n  };\n  const isTableCellHiddenByEmptyCells = (el, cs, tag) => (tag === \"td\" || tag === \"th\") && cs.borderCollapse !== \"collapse\" && cs.emptyCells === \"hide\" && !tableCellHasInflowFragments(el);\n  const resolveTableGridRect = (el, cs, tag, rect) => {\n    if (tag !== \"table\") return void 0;\n    const captions = [];\n    for (const child of el.children) {\n      const styleWindow = child.ownerDocument?.defaultView ?? window;\n      const ccs = styleWindow.getComputedStyle(child);\n      if (ccs.display !== \"table-caption\") continue;\n      const captionRect = child.getBoundingClientRect();\n      const zoom = effectiveZoomFor(child);\n      const vertical = /^(?:vertical|sideways)-/.test(cs.writingMode);\n      const blockReverse = cs.writingMode === \"vertical-rl\" || cs.writingMode === \"sideways-rl\";\n      const marginBlockStart = parseFloat(vertical ? blockReverse ? ccs.marginRight : ccs.marginLeft : ccs.marginTop) * zoom || 0;\n      const marginBlockEnd = parseFloat(vertical ? blockReverse ? ccs.marginLeft : ccs.marginRight : ccs.marginBottom) * zoom || 0;\n      captions.push({\n        rect: captionRect,\n        side: ccs.captionSide === \"bottom\" ? \"bottom\" : \"top\",\n        marginBlockStart,\n        marginBlockEnd\n      });\n    }\n    if (captions.length === 0) return void 0;\n    const grid = tableGridRectFromCaptions(rect, cs.writingMode, captions);\n    return { x: grid.x - vp.x, y: grid.y - vp.y, width: grid.width, height: grid.height };\n  };\n  const computeFrostedBgFallback = (cs) => {\n    const bdf = cs.backdropFilter || cs.webkitBackdropFilter || \"\";\n    if (bdf === \"\" || bdf === \"none\") return void 0;\n    const bgCol = normColor(cs.backgroundColor, cs.color);\n    let a = 1;\n    const m = /rgba?\\(\\s*[^,)\\s]+[ ,]+[^,)\\s]+[ ,]+[^,)\\s]+(?:[ ,/]+([^)]+))?\\)/.exec(bgCol);\n    if (m != null && m[1] != null) {\n      const av = parseFloat(m[1]);\n      if (!isNaN(av)) a = av;\n    }\n    if (a > 0.1) return void 0;\n    const bodyBg = normColor(window.getComputedStyle(document.body).backgroundColor);\n    let bodyA = 1;\n    const bm = /rgba?\\(\\s*[^,)\\s]+[ ,]+[^,)\\s]+[ ,]+[^,)\\s]+(?:[ ,/]+([^)]+))?\\)/.exec(bodyBg);\n    if (bm != null && bm[1] != null) {\n      const bav = parseFloat(bm[1]);\n      if (!isNaN(bav)) bodyA = bav;\n    }\n    return bodyA <= 0.1 ? \"rgb(255,255,255)\" : bodyBg;\n  };\n  const computeBackgroundImages = (el, cs) => {\n    const bgImage = cs.backgroundImage;\n    if (bgImage == null || bgImage === \"none\" || bgImage === \"\") return void 0;\n    const records = el && el.__domotionBackgroundImages;\n    if (!Array.isArray(records)) {\n      warn(shortSelector(el), \"background-image\", \"capture-time selected-image sizing record was unavailable\");\n      return void 0;\n    }\n    const recordWarnings = [];\n    for (const record of records) {\n      if (record == null || record.warning == null) continue;\n      recordWarnings.push(\"layer \" + record.layerIndex + \": \" + record.warning);\n    }\n    if (recordWarnings.length > 0) {\n      warn(shortSelector(el), \"background-image\", recordWarnings.join(\"; \"));\n    }\n    return records;\n  };\n  const computeBorderImageIntrinsic = (cs, dim) => {\n    const url = extractCssUrl(cs.borderImageSource || \"\");\n    if (url == null) return void 0;\n    const img = new Image();\n    img.src = url;\n    return img[dim] || void 0;\n  };\n  const resolveCollapsedTableRects = (table) => {\n    if (table.__dmCollapsedBorderRects !== void 0) return table.__dmCollapsedBorderRects;\n    const tableCs = getComputedStyle(table);\n    if (tableCs.borderCollapse !== \"collapse\") return table.__dmCollapsedBorderRects = null;\n    const writingMode = tableCs.writingMode || \"horizontal-tb\";\n    const direction = tableCs.direction === \"rtl\" ? \"rtl\" : \"ltr\";\n    const sectionEls = Array.from(table.children).filter((x) => x.tagName === \"THEAD\" || x.tagName === \"TBODY\" || x.tagName === \"TFOOT\");\n    const directRows = Array.from(table.children).filter((x) => x.tagName === \"TR\");\n    const rowEntries = [];\n    if (directRows.length) for (const row of directRows) rowEntries.push({ row, section: null, sectionIndex: -1 });\n    for (let sectionIndex = 0; sectionIndex < sectionEls.length; sectionIndex++) {\n      for (const row of Array.from(sectionEls[sectionIndex].children).filter((x) => x.tagName === \"TR\")) rowEntries.push({ row, section: sectionEls[sectionIndex], sectionIndex });\n    }\n    if (!rowEntries.length) return table.__dmCollapsedBorderRects = null;\n    const occupancy = [], cells = [], sections = /* @__PURE__ */ new Map();\n    let columns = 0;\n    for (let r = 0; r < rowEntries.length; r++) {\n      occupancy[r] || (occupancy[r] = []);\n      const entry = rowEntries[r];\n      if (entry.section != null) {\n        const current = sections.get(entry.section);\n        if (current == null) sections.set(entry.section, { start: r, count: 1 });\n        else current.count++;\n      }\n      let c = 0;\n      for (const cell of Array.from(entry.row.children).filter((x) => x.tagName === \"TD\" || x.tagName === \"TH\")) {\n        while (occupancy[r][c] != null) c++;\n        const colspan = Math.max(1, cell.colSpan || 1);\n        let rowspan = Math.max(1, cell.rowSpan || 1);\n        if (entry.section != null) {\n          const sectionRows = Array.from(entry.section.children).filter((x) => x.tagName === \"TR\");\n          const localRow = sectionRows.indexOf(entry.row);\n          rowspan = Math.min(rowspan, sectionRows.length - localRow);\n        } else rowspan = Math.min(rowspan, rowEntries.length - r);\n        const meta = { cell, row: r, column: c, rowspan, colspan };\n        cells.push(meta);\n        for (let rr = r; rr < r + rowspan; rr++) {\n          occupancy[rr] || (occupancy[rr] = []);\n          for (let cc = c; cc < c + colspan; cc++) occupancy[rr][cc] = meta;\n        }\n        c += colspan;\n        columns = Math.max(columns, c);\n      }\n    }\n    if (!columns) return table.__dmCollapsedBorderRects = null;\n    const grid = createCollapsedBorderGrid(rowEntries.length, columns);\n    let boxOrder = 0;\n    const physicalBorders = (node, order) => {\n      const cs = getComputedStyle(node);\n      const zoom = effectiveZoomFor(node);\n      const one = (side) => ({\n        side: side.toLowerCase(),\n        order,\n        w: parseFloat(physicalComputedPaintLength(cs[\"border\" + side + \"Width\"], zoom)) || 0,\n        style: collapsedBorderStyle(cs[\"border\" + side + \"Style\"]),\n        color: normColor(cs[\"border\" + side + \"Color\"], cs.color)\n      });\n      return { top: one(\"Top\"), right: one(\"Right\"), bottom: one(\"Bottom\"), left: one(\"Left\") };\n    };\n    for (const meta of cells) mergeCollapsedBorderBox(grid, meta.row, meta.column, meta.rowspan, meta.colspan, physicalBorders(meta.cell, ++boxOrder), writingMode, direction, true);\n    for (let r = 0; r < rowEntries.length; r++) mergeCollapsedBorderBox(grid, r, 0, 1, columns, physicalBorders(rowEntries[r].row, ++boxOrder), writingMode, direction);\n    for (const [section, span] of sections) mergeCollapsedBorderBox(grid, span.start, 0, span.count, columns, physicalBorders(section, ++boxOrder), writingMode, direction);\n    const columnEntries = [];\n    for (const child of Array.from(table.children)) {\n      if (child.tagName === \"COL\") {\n        columnEntries.push({ col: child, group: null, start: columnEntries.length, span: Math.max(1, child.span || 1) });\n      } else if (child.tagName === \"COLGROUP\") {\n        const start = columnEntries.reduce((n, item) => Math.max(n, item.start + item.span), 0);\n        const cols = Array.from(child.children).filter((x) => x.tagName === \"COL\");\n        if (!cols.length) columnEntries.push({ col: null, group: child, start, span: Math.max(1, child.span || 1) });\n        else {\n          let at = start;\n          for (const col of cols) {\n            const span = Math.max(1, col.span || 1);\n            columnEntries.push({ col, group: child, start: at, span });\n            at += span;\n          }\n        }\n      }\n    }\n    const columnOrder = ++boxOrder;\n    for (const entry of columnEntries) if (entry.col != null) mergeCollapsedBorderBox(grid, 0, entry.start, rowEntries.length, entry.span, physicalBorders(entry.col, columnOrder), writingMode, direction);\n    const groupOrder = ++boxOrder;\n    const groupsSeen = /* @__PURE__ */ new Set();\n    for (const entry of columnEntries) if (entry.group != null && !groupsSeen.has(entry.group)) {\n      groupsSeen.add(entry.group);\n      const members = columnEntries.filter((x) => x.group === entry.group);\n      const start = Math.min(...members.map((x) => x.start));\n      const end = Math.max(...members.map((x) => x.start + x.span));\n      mergeCollapsedBorderBox(grid, 0, start, rowEntries.length, end - start, physicalBorders(entry.group, groupOrder), writingMode, direction);\n    }\n    mergeCollapsedBorderBox(grid, 0, 0, rowEntries.length, columns, physicalBorders(table, ++boxOrder), writingMode, direction);\n    const tableRect = table.getBoundingClientRect();\n    const trackLines = (samples, fallbackEnd) => {\n      const lines = samples.map((values) => {\n        if (!values.length) return null;\n        values.sort((a, b) => a - b);\n        const mid = Math.floor(values.length / 2);\n        return values.length % 2 ? values[mid] : (values[mid - 1] + values[mid]) / 2;\n      });\n      if (lines[0] == null) lines[0] = 0;\n      if (lines[lines.length - 1] == null) lines[lines.length - 1] = fallbackEnd;\n      for (let i = 1; i < lines.length - 1; i++) if (lines[i] == null) {\n        let hi = i + 1;\n        while (hi < lines.length && lines[hi] == null) hi++;\n        lines[i] = lines[i - 1] + (lines[hi] - lines[i - 1]) / (hi - i + 1);\n      }\n      return lines;\n    };\n    const tableFragments = Array.from(table.getClientRects()).filter((rect) => rect.width > 0 && rect.height > 0);\n    if (tableFragments.length > 1) {\n      const overlapArea = (a, b) => Math.max(0, Math.min(a.right, b.right) - Math.max(a.left, b.left)) * Math.max(0, Math.min(a.bottom, b.bottom) - Math.max(a.top, b.top));\n      const fragmentIndexFor = (rect) => {\n        let best = -1, area = 0;\n        for (let i = 0; i < tableFragments.length; i++) {\n          const candidate = overlapArea(rect, tableFragments[i]);\n          if (candidate > area) {\n            best = i;\n            area = candidate;\n          }\n        }\n        return best;\n      };\n      const horizontal2 = writingMode === \"horizontal-tb\";\n      const blockReverse2 = writingMode === \"vertical-rl\" || writingMode === \"sideways-rl\";\n      const repeatedSections = /* @__PURE__ */ new Map();\n      for (const section of sectionEls) {\n        if (section.tagName !== \"THEAD\" && section.tagName !== \"TFOOT\") continue;\n        const rects = Array.from(section.getClientRects());\n        const mapped = new Set(rects.map(fragmentIndexFor).filter((index) => index >= 0));\n        if (rects.length === tableFragments.length && tableFragments.length > 1 && mapped.size === 1) {\n          repeatedSections.set(section, { kind: section.tagName === \"THEAD\" ? \"header\" : \"footer\", sourceFragment: [...mapped][0] });\n        }\n      }\n      const translatedRect = (rect, dx, dy) => ({\n        x: rect.x + dx,\n        y: rect.y + dy,\n        left: rect.left + dx,\n        right: rect.right + dx,\n        top: rect.top + dy,\n        bottom: rect.bottom + dy,\n        width: rect.width,\n        height: rect.height\n      });\n      const fragmentRectsFor = (node, section) => {\n        const rects = Array.from(node.getClientRects());\n        const repeated = repeatedSections.get(section);\n        if (repeated == null || !rects.length) return rects.map((rect) => ({ rect, fragment: fragmentIndexFor(rect), repeated: false }));\n        const sourceRect = rects[0];\n        const sourceFragment = tableFragments[repeated.sourceFragment];\n        return tableFragments.map((target, fragment) => {\n          let dx, dy;\n          if (horizontal2) {\n            dx = target.left - sourceFragment.left;\n            dy = repeated.kind === \"header\" ? target.top - sourceFragment.top : target.bottom - sourceFragment.bottom;\n          } else {\n            dy = target.top - sourceFragment.top;\n            if (repeated.kind === \"header\") dx = blockReverse2 ? target.right - sourceFragment.right : target.left - sourceFragment.left;\n            else dx = blockReverse2 ? target.left - sourceFragment.left : target.right - sourceFragment.right;\n          }\n          return { rect: translatedRect(sourceRect, dx, dy), fragment, repeated: true };\n        });\n      };\n      const rowPieces = rowEntries.map((entry, row) => fragmentRectsFor(entry.row, entry.section).map((piece) => ({ rect: piece.rect, fragment: piece.fragment, repeated: piece.repeated, row, section: entry.section })).filter((piece) => piece.fragment >= 0));\n      const cellPieces = cells.map((meta) => fragmentRectsFor(meta.cell, rowEntries[meta.row].section).map((piece) => ({ rect: piece.rect, fragment: piece.fragment, meta })).filter((piece) => piece.fragment >= 0));\n      const sectionPieces = new Map(sectionEls.map((section) => [section, fragmentRectsFor(section, section)]));\n      const physicalRects2 = [];\n      for (let fragmentIndex = 0; fragmentIndex < tableFragments.length; fragmentIndex++) {\n        const fragmentRect = tableFragments[fragmentIndex];\n        const inlineReverse2 = direction === \"rtl\";\n        const logical = (rect) => ({\n          inlineStart: horizontal2 ? inlineReverse2 ? fragmentRect.right - rect.right : rect.left - fragmentRect.left : inlineReverse2 ? fragmentRect.bottom - rect.bottom : rect.top - fragmentRect.top,\n          inlineEnd: horizontal2 ? inlineReverse2 ? fragmentRect.right - rect.left : rect.right - fragmentRect.left : inlineReverse2 ? fragmentRect.bottom - rect.top : rect.bottom - fragmentRect.top,\n          blockStart: horizontal2 ? rect.top - fragmentRect.top : blockReverse2 ? fragmentRect.right - rect.right : rect.left - fragmentRect.left,\n          blockEnd: horizontal2 ? rect.bottom - fragmentRect.top : blockReverse2 ? fragmentRect.right - rect.left : rect.right - fragmentRect.left\n        });\n        const inlineSamples2 = Array.from({ length: columns + 1 }, () => []);\n        for (const pieces of cellPieces) for (const piece of pieces) if (piece.fragment === fragmentIndex) {\n          const coords = logical(piece.rect), meta = piece.meta;\n          inlineSamples2[meta.column].push(coords.inlineStart);\n          inlineSamples2[meta.column + meta.colspan].push(coords.inlineEnd);\n        }\n        const inlineExtent2 = horizontal2 ? fragmentRect.width : fragmentRect.height;\n        const inlineLines = trackLines(inlineSamples2, inlineExtent2);\n        const piecesHere = rowPieces.flat().filter((piece) => piece.fragment === fragmentIndex);\n        const sectionGroups = /* @__PURE__ */ new Map();\n        for (const piece of piecesHere) {\n          const key = piece.section ?? table;\n          let group = sectionGroups.get(key);\n          if (group == null) {\n            group = [];\n            sectionGroups.set(key, group);\n          }\n          group.push(piece);\n        }\n        const groups = Array.from(sectionGroups.values()).map((pieces) => {\n          pieces.sort((a, b) => logical(a.rect).blockStart - logical(b.rect).blockStart || a.row - b.row);\n          const first = pieces[0], last = pieces[pieces.length - 1];\n          const blockLines = pieces.map((piece) => logical(piece.rect).blockStart);\n          const sectionRect = first.section == null ? null : sectionPieces.get(first.section)?.find((piece) => piece.fragment === fragmentIndex)?.rect;\n          blockLines.push(sectionRect == null ? logical(last.rect).blockEnd : logical(sectionRect).blockEnd);\n          const firstPieceIndex = rowPieces[first.row].findIndex((piece) => piece === first);\n          const lastPieceIndex = rowPieces[last.row].findIndex((piece) => piece === last);\n          return {\n            rowStart: first.row,\n            blockLines,\n            startRowFragmented: !first.repeated && firstPieceIndex > 0,\n            endRowFragmented: !last.repeated && lastPieceIndex >= 0 && lastPieceIndex < rowPieces[last.row].length - 1\n          };\n        }).sort((a, b) => a.blockLines[0] - b.blockLines[0]);\n        for (let i = 0; i < groups.length; i++) {\n          groups[i].hasContentBefore = i === 0 && groups[i].rowStart > 0;\n          groups[i].hasContentAfter = i === groups.length - 1 && groups[i].rowStart + groups[i].blockLines.length < grid.rows + 1;\n        }\n        const logicalRects2 = collapsedBorderFragmentLogicalRects(grid, inlineLines, groups);\n        for (const rect of logicalRects2) {\n          let x, y, width, height;\n          if (horizontal2) {\n            x = inlineReverse2 ? fragmentRect.right - rect.inlineStart - rect.inlineSize : fragmentRect.left + rect.inlineStart;\n            y = fragmentRect.top + rect.blockStart;\n            width = rect.inlineSize;\n            height = rect.blockSize;\n          } else {\n            x = blockReverse2 ? fragmentRect.right - rect.blockStart - rect.blockSize : fragmentRect.left + rect.blockStart;\n            y = inlineReverse2 ? fragmentRect.bottom - rect.inlineStart - rect.inlineSize : fragmentRect.top + rect.inlineStart;\n            width = rect.blockSize;\n            height = rect.inlineSize;\n          }\n          const snap2 = (start, size) => {\n            const rounded = Math.round(start);\n            return { start: rounded, size: Math.max(0, Math.round(start + size) - rounded) };\n          };\n          const sx = snap2(x, width), sy = snap2(y, height);\n          if (sx.size > 0 && sy.size > 0) physicalRects2.push({ x: sx.start, y: sy.start, width: sx.size, height: sy.size, axis: rect.axis, style: rect.winner.style, color: rect.winner.color });\n        }\n      }\n      table.__dmCollapsedCells = new Set(cells.map((meta) => meta.cell));\n      table.__dmCollapsedBorderRects = physicalRects2;\n      return physicalRects2;\n    }\n    const inlineSamples = Array.from({ length: columns + 1 }, () => []);\n    const blockSamples = Array.from({ length: rowEntries.length + 1 }, () => []);\n    const horizontal = writingMode === \"horizontal-tb\";\n    const blockReverse = writingMode === \"vertical-rl\" || writingMode === \"sideways-rl\";\n    const inlineReverse = direction === \"rtl\";\n    for (const meta of cells) {\n      const rect = meta.cell.getBoundingClientRect();\n      const inlineStart = horizontal ? inlineReverse ? tableRect.right - rect.right : rect.left - tableRect.left : inlineReverse ? tableRect.bottom - rect.bottom : rect.top - tableRect.top;\n      const inlineEnd = horizontal ? inlineReverse ? tableRect.right - rect.left : rect.right - tableRect.left : inlineReverse ? tableRect.bottom - rect.top : rect.bottom - tableRect.top;\n      const blockStart = horizontal ? rect.top - tableRect.top : blockReverse ? tableRect.right - rect.right : rect.left - tableRect.left;\n      const blockEnd = horizontal ? rect.bottom - tableRect.top : blockReverse ? tableRect.right - rect.left : rect.right - tableRect.left;\n      inlineSamples[meta.column].push(inlineStart);\n      inlineSamples[meta.column + meta.colspan].push(inlineEnd);\n      blockSamples[meta.row].push(blockStart);\n      blockSamples[meta.row + meta.rowspan].push(blockEnd);\n    }\n    const inlineExtent = horizontal ? tableRect.width : tableRect.height;\n    const blockExtent = horizontal ? tableRect.height : tableRect.width;\n    const logicalRects = collapsedBorderLogicalRects(grid, trackLines(inlineSamples, inlineExtent), trackLines(blockSamples, blockExtent));\n    const snap = (start, size) => {\n      const rounded = Math.round(start);\n      return { start: rounded, size: Math.max(0, Math.round(start + size) - rounded) };\n    };\n    const physicalRects = logicalRects.map((rect) => {\n      let x, y, width, height;\n      if (horizontal) {\n        x = inlineReverse ? tableRect.right - rect.inlineStart - rect.inlineSize : tableRect.left + rect.inlineStart;\n        y = tableRect.top + rect.blockStart;\n        width = rect.inlineSize;\n        height = rect.blockSize;\n      } else {\n        x = blockReverse ? tableRect.right - rect.blockStart - rect.blockSize : tableRect.left + rect.blockStart;\n        y = inlineReverse ? tableRect.bottom - rect.inlineStart - rect.inlineSize : tableRect.top + rect.inlineStart;\n        width = rect.blockSize;\n        height = rect.inlineSize;\n      }\n      const sx = snap(x, width), sy = snap(y, height);\n      return { x: sx.start, y: sy.start, width: sx.size, height: sy.size, axis: rect.axis, style: rect.winner.style, color: rect.winner.color };\n    }).filter((rect) => rect.width > 0 && rect.height > 0);\n    table.__dmCollapsedCells = new Set(cells.map((meta) => meta.cell));\n    table.__dmCollapsedBorderRects = physicalRects;\n    return physicalRects;\n  };\n  const isCollapsedStructural = (tag, cs) => cs.borderCollapse === \"collapse\" && (tag === \"table\" || tag === \"tr\" || tag === \"thead\" || tag === \"tbody\" || tag === \"tfoot\" || tag === \"colgroup\" || tag === \"col\");\n  const captureBordersBackgrounds = (el, cs, tag, rect, isPlaceholderCapture, effectiveZoom = 1) => {\n    const backgroundImages = computeBackgroundImages(el, cs);\n    return {\n      tableGridRect: resolveTableGridRect(el, cs, tag, rect),\n      backgroundColor: (function() {\n        if (isPlaceholderCapture) {\n          const psBg = resolvePlaceholderShownBg(el);\n          if (psBg !== \"\") return normColor(psBg);\n        }\n        return normColor(cs.backgroundColor, cs.color);\n      })(),\n      borderColor: normColor(cs.borderColor, cs.color),\n      borderWidth: physicalComputedPaintLength(cs.borderWidth, effectiveZoom),\n      borderRadius: cs.borderRadius,\n      borderTopLeftRadius: resolveCornerRadius(cs.borderTopLeftRadius, rect.width, rect.height, effectiveZoom),\n      borderTopRightRadius: resolveCornerRadius(cs.borderTopRightRadius, rect.width, rect.height, effectiveZoom),\n      borderBottomRightRadius: resolveCornerRadius(cs.borderBottomRightRadius, rect.width, rect.height, effectiveZoom),\n      borderBottomLeftRadius: resolveCornerRadius(cs.borderBottomLeftRadius, rect.width, rect.height, effectiveZoom),\n      cornerTopLeftShape: cs.cornerTopLeftShape,\n      cornerTopRightShape: cs.cornerTopRightShape,\n      cornerBottomRightShape: cs.cornerBottomRightShape,\n      cornerBottomLeftShape: cs.cornerBottomLeftShape,\n      borderTopWidth: physicalComputedPaintLength(cs.borderTopWidth, effectiveZoom),\n      borderRightWidth: physicalComputedPaintLength(cs.borderRightWidth, effectiveZoom),\n      borderBottomWidth: physicalComputedPaintLength(cs.borderBottomWidth, effectiveZoom),\n      borderLeftWidth: physicalComputedPaintLength(cs.borderLeftWidth, effectiveZoom),\n      borderTopStyle: cs.borderTopStyle,\n      borderRightStyle: cs.borderRightStyle,\n      borderBottomStyle: cs.borderBottomStyle,\n      borderLeftStyle: cs.borderLeftStyle,\n      borderTopColor: tintedBorderColor(tag, el, cs, \"borderTopColor\"),\n      borderRightColor: tintedBorderColor(tag, el, cs, \"borderRightColor\"),\n      borderBottomColor: tintedBorderColor(tag, el, cs, \"borderBottomColor\"),\n      borderLeftColor: tintedBorderColor(tag, el, cs, \"borderLeftColor\"),\n      borderCollapse: cs.borderCollapse,\n      // DM-1260: full collapsed-border conflict resolution. For a cell, override\n      // each side with the resolved winning border (overlapping the adjacent cell's\n      // matching resolved side); for a collapsed structural element, suppress its\n      // box border (folded into the cells). Placed AFTER the per-side width/style/\n      // color fields above so it wins. Complex tables (no resolution) fall through.\n      ...(function() {\n        let collapsedTable = null;\n        if (cs.borderCollapse === \"collapse\") {\n          collapsedTable = tag === \"table\" ? el : el.closest && el.closest(\"table\");\n        }\n        const tableRects = collapsedTable != null ? resolveCollapsedTableRects(collapsedTable) : null;\n        if (tableRects != null && tag === \"table\") {\n          return {\n            collapsedBorderRects: tableRects,\n            borderTopStyle: \"none\",\n            borderRightStyle: \"none\",\n            borderBottomStyle: \"none\",\n            borderLeftStyle: \"none\",\n            borderTopWidth: \"0px\",\n            borderRightWidth: \"0px\",\n            borderBottomWidth: \"0px\",\n            borderLeftWidth: \"0px\",\n            borderWidth: \"0px\",\n            borderColor: \"rgba(0, 0, 0, 0)\"\n          };\n        }\n        if (tableRects != null && (isCollapsedStructural(tag, cs) || tag === \"td\" || tag === \"th\")) {\n          return {\n            borderTopStyle: \"none\",\n            borderRightStyle: \"none\",\n            borderBottomStyle: \"none\",\n            borderLeftStyle: \"none\",\n            borderTopWidth: \"0px\",\n            borderRightWidth: \"0px\",\n            borderBottomWidth: \"0px\",\n            borderLeftWidth: \"0px\",\n            borderWidth: \"0px\",\n            borderColor: \"rgba(0, 0, 0, 0)\"\n          };\n        }\n        if (isCollapsedStructural(tag, cs)) {\n          return {\n            borderTopStyle: \"none\",\n            borderRightStyle: \"none\",\n            borderBottomStyle: \"none\",\n            borderLeftStyle: \"none\",\n            borderTopWidth: \"0px\",\n            borderRightWidth: \"0px\",\n            borderBottomWidth: \"0px\",\n            borderLeftWidth: \"0px\",\n            // Also clear the shorthands — the renderer's legacy uniform-border path\n            // falls back to `borderWidth` / `borderColor` when the per-side parses\n            // resolve to a zero-width border, which would re-paint the structural box.\n            borderWidth: \"0px\",\n            borderColor: \"rgba(0, 0, 0, 0)\"\n          };\n        }\n        return {};\n      })(),\n      frostedBgFallback: computeFrostedBgFallback(cs),\n      backgroundImage: normGradientColors(cs.backgroundImage, cs.color),\n      backgroundSize: physicalComputedTileSize(cs.backgroundSize, effectiveZoom),\n      // Computed px terms are serialized before effective zoom, while the\n      // captured positioning/painting DOMRects are already physical. Blink's\n      // FillLayer stores zoomed Length values, so cross that boundary once here\n      // for position just as we already do for background-size.\n      backgroundPosition: physicalComputedTileSize(cs.backgroundPosition, effectiveZoom),\n      backgroundRepeat: cs.backgroundRepeat,\n      backgroundClip: cs.backgroundClip,\n      backgroundBlendMode: cs.backgroundBlendMode,\n      // DM-462: -webkit-text-fill-color is the property that actually makes\n      // the headline text transparent in the background-clip:text idiom\n      // (cs.color may still report a normal value).\n      webkitTextFillColor: cs.webkitTextFillColor || cs.WebkitTextFillColor || void 0,\n      // DM-749: Stripe's keynote-speaker headline pattern — a span with\n      // `background-image: <gradient>; background-clip: text; -webkit-text-\n      // fill-color: transparent` wraps a child div that holds the actual\n      // text. The gradient is on the parent but Chrome lets it paint through\n      // the child's glyphs because background-clip: text masks the gradient\n      // by the union of all descendant text shapes. When the element's own\n      // bg-image is none AND its text-fill-color is transparent AND an\n      // ancestor has background-clip: text with a gradient, capture that\n      // ancestor's gradient so the renderer can use it as the glyph fill.\n      ...(function() {\n        const ownTfc = cs.webkitTextFillColor || cs.WebkitTextFillColor || \"\";\n        if (!/^(rgba\\(0[^)]*?,\\s*0\\)|transparent)$/i.test(ownTfc.trim())) {\n          return { inheritedTextFillGradient: void 0 };\n        }\n        let p = el.parentElement;\n        let depth = 0;\n        while (p != null && depth < 8) {\n          const pcs = window.getComputedStyle(p);\n          const bc = (pcs.backgroundClip || \"\") + \" \" + (pcs.webkitBackgroundClip || \"\");\n          if (/\\btext\\b/i.test(bc) && pcs.backgroundImage && pcs.backgroundImage !== \"none\" && pcs.backgroundImage !== \"\") {\n            const prect = p.getBoundingClientRect();\n            return {\n              inheritedTextFillGradient: pcs.backgroundImage,\n              inheritedTextFillGradientRect: { x: prect.x, y: prect.y, width: prect.width, height: prect.height }\n            };\n          }\n          p = p.parentElement;\n          depth++;\n        }\n        return { inheritedTextFillGradient: void 0 };\n      })(),\n      // DM-719: `-webkit-text-stroke-width` / `-webkit-text-stroke-color` paint a\n      // stroke around each glyph outline. Captured so the renderer can add a\n      // `stroke` attribute to the text-path emission.\n      webkitTextStrokeWidth: cs.webkitTextStrokeWidth || cs.WebkitTextStrokeWidth || void 0,\n      webkitTextStrokeColor: cs.webkitTextStrokeColor || cs.WebkitTextStrokeColor || void 0,\n      paintOrder: cs.paintOrder || void 0,\n      backgroundOrigin: cs.backgroundOrigin,\n      backgroundAttachment: cs.backgroundAttachment,\n      backgroundImages,\n      // Compatibility projection only. The selected candidate and complete\n      // natural-sizing state live in backgroundImages.\n      backgroundIntrinsic: (() => {\n        return backgroundImages?.map((record) => record != null && record.naturalWidth != null && record.naturalHeight != null ? { w: record.naturalWidth, h: record.naturalHeight } : null);\n      })(),\n      borderImageSource: cs.borderImageSource,\n      borderImageSlice: cs.borderImageSlice,\n      borderImageWidth: cs.borderImageWidth,\n      borderImageOutset: cs.borderImageOutset,\n      borderImageRepeat: cs.borderImageRepeat,\n      borderImageIntrinsicWidth: computeBorderImageIntrinsic(cs, \"naturalWidth\"),\n      borderImageIntrinsicHeight: computeBorderImageIntrinsic(cs, \"naturalHeight\"),\n      outlineStyle: cs.outlineStyle,\n      outlineWidth: physicalComputedPaintLength(cs.outlineWidth, effectiveZoom),\n      outlineColor: normColor(cs.outlineColor),\n      outlineOffset: physicalComputedPaintLength(cs.outlineOffset, effectiveZoom),\n      boxShadow: cs.boxShadow,\n      // box-decoration-break: 'slice' (default) vs 'clone'. Drives per-fragment\n      // paint of wrapped inline elements; see CapturedElement.inlineFragments.\n      boxDecorationBreak: cs.boxDecorationBreak || cs.webkitBoxDecorationBreak || \"slice\"\n    };\n  };\n  return { captureBordersBackgrounds, isTableCellHiddenByEmptyCells };\n};\n\n// src/capture/script/walker/background-attachment.ts\nvar TRANSFORM_WILL_CHANGE = /* @__PURE__ */ new Set([\n  \"transform\",\n  \"transform-style\",\n  \"perspective\",\n  \"translate\",\n  \"rotate\",\n  \"scale\",\n  \"offset-path\",\n  \"offset-position\"\n]);\nvar splitLayers = (value) => {\n  const out = [];\n  let depth = 0;\n  let quote = \"\";\n  let escaped = false;\n  let start = 0;\n  for (let i = 0; i < value.length; i++) {\n    const ch = value[i];\n    if (escaped) {\n      escaped = false;\n      continue;\n    }\n    if (ch === \"\\\\\") {\n      escaped = true;\n      continue;\n    }\n    if (quote !== \"\") {\n      if (ch === quote) quote = \"\";\n      continue;\n    }\n    if (ch === '\"' || ch === \"'\") {\n      quote = ch;\n      continue;\n    }\n    if (ch === \"(\") depth++;\n    else if (ch === \")\") depth = Math.max(0, depth - 1);\n    else if (ch === \",\" && depth === 0) {\n      out.push(value.slice(start, i).trim());\n      start = i + 1;\n    }\n  }\n  out.push(value.slice(start).trim());\n  return out;\n};\nvar hasAnyTransformWillChange = (style) => {\n  if (style.willChange == null || style.willChange === \"\" || style.willChange === \"auto\") return false;\n  return style.willChange.split(/[\\s,]+/).some((token) => TRANSFORM_WILL_CHANGE.has(token.toLowerCase()));\n};\nvar hasPaintLayerTransform = (style) => {\n  if (style.transform != null && style.transform !== \"\" && style.transform !== \"none\" || style.translate != null && style.translate !== \"\" && style.translate !== \"none\" || style.rotate != null && style.rotate !== \"\" && style.rotate !== \"none\" || style.scale != null && style.scale !== \"\" && style.scale !== \"none\") return true;\n  return style.offsetPath != null && style.offsetPath !== \"\" && style.offsetPath !== \"none\";\n};\nvar isVisibleCanvasBackground = (style) => {\n  const image = style.backgroundImage;\n  const color = style.backgroundColor;\n  return image != null && image !== \"\" && image !== \"none\" || color != null && color !== \"\" && color !== \"transparent\" && color !== \"rgba(0, 0, 0, 0)\" && color !== \"rgba(0,0,0,0)\";\n};\nvar createBackgroundAttachmentHandler = ({ vp, transformRelatedBoxFor, effectiveZoomFor, scrollbarPropertyKey }) => {\n  const fixedToViewport = (el) => {\n    const doc = el.ownerDocument;\n    const root = doc.documentElement;\n    if (el === root) return true;\n    for (let current = el; current != null && current !== root; current = current.parentElement) {\n      const style = (current.ownerDocument.defaultView || window).getComputedStyle(current);\n      if (transformRelatedBoxFor(current) === false) continue;\n      if (hasPaintLayerTransform(style) || hasAnyTransformWillChange(style)) return false;\n    }\n    return true;\n  };\n  const canvasOwner = (doc) => {\n    const root = doc.documentElement;\n    const body = doc.body;\n    if (root != null && isVisibleCanvasBackground((doc.defaultView || window).getComputedStyle(root))) return root;\n    return body;\n  };\n  const overflowClip = (el, rect, border, scaleX, scaleY) => {\n    let x = rect.left - vp.x + border.left;\n    let y = rect.top - vp.y + border.top;\n    let width = Math.max(0, rect.width - border.left - border.right);\n    let height = Math.max(0, rect.height - border.top - border.bottom);\n    const scrollbarSet = typeof scrollbarPropertyKey === \"string\" && scrollbarPropertyKey !== \"\" ? el[scrollbarPropertyKey] : void 0;\n    if (scrollbarSet != null && scrollbarSet.overlay === false) {\n      const vertical = scrollbarSet.vertical && scrollbarSet.vertical.frameRect;\n      if (vertical != null) {\n        if (scrollbarSet.vertical.logicalSide === \"left\") {\n          const edge = vertical.x + vertical.width;\n          const shrink = Math.max(0, edge - x);\n          x += shrink;\n          width = Math.max(0, width - shrink);\n        } else {\n          width = Math.max(0, Math.min(width, vertical.x - x));\n        }\n      }\n      const horizontal = scrollbarSet.horizontal && scrollbarSet.horizontal.frameRect;\n      if (horizontal != null) height = Math.max(0, Math.min(height, horizontal.y - y));\n    } else if (scrollbarSet == null) {\n      const clientWidth = Number(el.clientWidth) * scaleX;\n      const clientHeight = Number(el.clientHeight) * scaleY;\n      if (clientWidth > 0 && width - clientWidth > 0.5) width = clientWidth;\n      if (clientHeight > 0 && height - clientHeight > 0.5) height = clientHeight;\n    }\n    return { x, y, width, height };\n  };\n  const captureBackgroundAttachment = (el, style, rect, scaleX = 1, scaleY = 1) => {\n    const attachments = splitLayers(style.backgroundAttachment || \"scroll\");\n    const needsFixed = attachments.includes(\"fixed\");\n    const needsLocal = attachments.includes(\"local\");\n    const doc = el.ownerDocument;\n    const root = doc.documentElement;\n    const ownsCanvas = el === canvasOwner(doc) && isVisibleCanvasBackground(style);\n    if (!needsFixed && !needsLocal && !ownsCanvas) return void 0;\n    const zoom = effectiveZoomFor(el);\n    const physicalX = Number.isFinite(scaleX) && scaleX > 0 ? scaleX : zoom;\n    const physicalY = Number.isFinite(scaleY) && scaleY > 0 ? scaleY : zoom;\n    const border = {\n      top: (parseFloat(style.borderTopWidth) || 0) * physicalY,\n      right: (parseFloat(style.borderRightWidth) || 0) * physicalX,\n      bottom: (parseFloat(style.borderBottomWidth) || 0) * physicalY,\n      left: (parseFloat(style.borderLeftWidth) || 0) * physicalX\n    };\n    const rootRect = root.getBoundingClientRect();\n    const rootZoom = effectiveZoomFor(root);\n    const localScrollContainer = [\"auto\", \"hidden\", \"overlay\", \"scroll\"].includes(style.overflowX) || [\"auto\", \"hidden\", \"overlay\", \"scroll\"].includes(style.overflowY);\n    return {\n      source: \"blink-box-background-paint-context-v1\",\n      fixedToViewport: needsFixed ? fixedToViewport(el) : false,\n      layoutViewport: {\n        x: -vp.x,\n        y: -vp.y,\n        // Root clientHeight may expose the stitched document height when the\n        // root box itself is unconstrained. The layout viewport never exceeds\n        // innerWidth/innerHeight; client* is only the scrollbar-excluding cap.\n        width: Math.min((doc.defaultView || window).innerWidth, doc.documentElement.clientWidth),\n        height: Math.min((doc.defaultView || window).innerHeight, doc.documentElement.clientHeight)\n      },\n      local: needsLocal ? {\n        active: localScrollContainer,\n        // ScrollOffsetInt is the physical, pixel-snapped offset. CSSOM scroll\n        // positions are zoom-adjusted, so cross that boundary before snapping.\n        scrollOffsetX: Math.round(Number(el.scrollLeft || 0) * zoom) * (physicalX / zoom),\n        scrollOffsetY: Math.round(Number(el.scrollTop || 0) * zoom) * (physicalY / zoom),\n        borderPaintWidth: Number(el.scrollWidth || 0) * physicalX + border.left + border.right,\n        borderPaintHeight: Number(el.scrollHeight || 0) * physicalY + border.top + border.bottom,\n        overflowClip: overflowClip(el, rect, border, physicalX, physicalY)\n      } : void 0,\n      canvas: ownsCanvas ? {\n        owner: el === root ? \"root\" : \"body-propagated\",\n        positioningRect: {\n          x: rootRect.left - vp.x,\n          y: rootRect.top - vp.y,\n          width: Math.max(rootRect.width, Number(root.scrollWidth || 0) * rootZoom),\n          height: Math.max(rootRect.height, Number(root.scrollHeight || 0) * rootZoom)\n        }\n      } : void 0\n    };\n  };\n  return { captureBackgroundAttachment };\n};\n\n// src/capture/script/walker/pseudo-content.ts\nvar pseudoCanvasFont = (pcs) => (pcs.fontStyle || \"normal\") + \" \" + (pcs.fontWeight || \"normal\") + \" \" + (pcs.fontSize || \"16px\") + \" \" + (pcs.fontFamily || \"sans-serif\");\nvar buildPseudoContentHandler = ({\n  vp,\n  normColor,\n  measureFontMetrics,\n  textNeedsRaster,\n  resolveCounterValue,\n  isCustomCounterStyle,\n  composeEffectiveTransform: composeEffectiveTransform2,\n  effectiveZoomFor = () => 1,\n  physicalComputedCssPixelTerms = (value) => value\n}) => {\n  const physicalFilter = (el, value) => value && value !== \"none\" ? physicalComputedCssPixelTerms(value, effectiveZoomFor(el)) : void 0;\n  const physicalNumber = (el, value) => {\n    const number = parseFloat(value);\n    return Number.isFinite(number) ? number * effectiveZoomFor(el) : 0;\n  };\n  const physicalTransform = (el, value) => {\n    const zoom = effectiveZoomFor(el);\n    if (!value || value === \"none\" || zoom === 1) return value;\n    const m2 = /^matrix\\(([^)]+)\\)$/.exec(value);\n    if (m2 != null) {\n      const parts = m2[1].split(\",\").map((part) => parseFloat(part));\n      if (parts.length === 6 && parts.every(Number.isFinite)) {\n        parts[4] *= zoom;\n        parts[5] *= zoom;\n        return `matrix(${parts.join(\", \")})`;\n      }\n    }\n    const m3 = /^matrix3d\\(([^)]+)\\)$/.exec(value);\n    if (m3 != null) {\n      const parts = m3[1].split(\",\").map((part) => parseFloat(part));\n      if (parts.length === 16 && parts.every(Number.isFinite)) {\n        parts[12] *= zoom;\n        parts[13] *= zoom;\n        parts[14] *= zoom;\n        return `matrix3d(${parts.join(\", \")})`;\n      }\n    }\n    return value;\n  };\n  let _emojiAdvCv = null;\n  let _emojiAdvCtx = null;\n  const measureGlyphAdvance = (s, pcs) => {\n    if (_emojiAdvCtx == null) {\n      _emojiAdvCv = document.createElement(\"canvas\");\n      _emojiAdvCtx = _emojiAdvCv.getContext(\"2d\");\n    }\n    _emojiAdvCtx.font = pseudoCanvasFont(pcs);\n    return _emojiAdvCtx.measureText(s).width;\n  };\n  const probeGeneratedPseudoLayout = (el, pseudo, text, pcs) => {\n    const span = document.createElement(\"span\");\n    for (let i = 0; i < pcs.length; i++) {\n      const name = pcs.item(i);\n      span.style.setProperty(name, pcs.getPropertyValue(name));\n    }\n    span.style.setProperty(\"content\", \"normal\");\n    span.style.setProperty(\"visibility\", \"hidden\");\n    span.style.setProperty(\"pointer-events\", \"none\");\n    span.style.setProperty(\"transform\", \"none\");\n    span.style.setProperty(\"translate\", \"none\");\n    span.style.setProperty(\"rotate\", \"none\");\n    span.style.setProperty(\"scale\", \"none\");\n    span.textContent = text;\n    if (pseudo === \"::before\") el.insertBefore(span, el.firstChild);\n    else el.appendChild(span);\n    const borderRect = span.getBoundingClientRect();\n    const range = document.createRange();\n    range.selectNodeContents(span);\n    const textRect = range.getBoundingClientRect();\n    const result = {\n      borderRect: { left: borderRect.left, top: borderRect.top, width: borderRect.width, height: borderRect.height },\n      textRect: { left: textRect.left, top: textRect.top, width: textRect.width, height: textRect.height }\n    };\n    span.remove();\n    return result;\n  };\n  const probePseudoStaticBoxRect = (el, pseudo, pcs) => {\n    const probe = document.createElement(\"span\");\n    probe.style.cssText = \"pointer-events:none;visibility:hidden;box-sizing:content-box\";\n    probe.style.display = pcs.display;\n    probe.style.width = pcs.width;\n    probe.style.height = pcs.height;\n    probe.style.paddingTop = pcs.paddingTop;\n    probe.style.paddingRight = pcs.paddingRight;\n    probe.style.paddingBottom = pcs.paddingBottom;\n    probe.style.paddingLeft = pcs.paddingLeft;\n    probe.style.borderTopWidth = pcs.borderTopWidth;\n    probe.style.borderRightWidth = pcs.borderRightWidth;\n    probe.style.borderBottomWidth = pcs.borderBottomWidth;\n    probe.style.borderLeftWidth = pcs.borderLeftWidth;\n    probe.style.borderStyle = \"solid\";\n    probe.style.borderColor = \"transparent\";\n    probe.style.marginTop = pcs.marginTop;\n    probe.style.marginRight = pcs.marginRight;\n    probe.style.marginBottom = pcs.marginBottom;\n    probe.style.marginLeft = pcs.marginLeft;\n    probe.style.verticalAlign = pcs.verticalAlign;\n    probe.style.font = \"\";\n    if (pseudo === \"::before\") el.insertBefore(probe, el.firstChild);\n    else el.appendChild(probe);\n    const r = probe.getBoundingClientRect();\n    probe.remove();\n    return r;\n  };\n  const probePseudoAbsoluteBoxRect = (el, pseudo, pcs) => {\n    const probe = document.createElement(\"div\");\n    probe.style.cssText = \"pointer-events:none;visibility:hidden;box-sizing:content-box;margin:0\";\n    probe.style.position = pcs.position;\n    probe.style.top = pcs.top;\n    probe.style.right = pcs.right;\n    probe.style.bottom = pcs.bottom;\n    probe.style.left = pcs.left;\n    probe.style.width = pcs.width;\n    probe.style.height = pcs.height;\n    probe.style.paddingTop = pcs.paddingTop;\n    probe.style.paddingRight = pcs.paddingRight;\n    probe.style.paddingBottom = pcs.paddingBottom;\n    probe.style.paddingLeft = pcs.paddingLeft;\n    probe.style.borderTopWidth = pcs.borderTopWidth;\n    probe.style.borderRightWidth = pcs.borderRightWidth;\n    probe.style.borderBottomWidth = pcs.borderBottomWidth;\n    probe.style.borderLeftWidth = pcs.borderLeftWidth;\n    probe.style.borderStyle = \"solid\";\n    probe.style.borderColor = \"transparent\";\n    probe.style.marginTop = pcs.marginTop;\n    probe.style.marginRight = pcs.marginRight;\n    probe.style.marginBottom = pcs.marginBottom;\n    probe.style.marginLeft = pcs.marginLeft;\n    probe.style.transform = \"\";\n    probe.style.transformOrigin = \"\";\n    if (pseudo === \"::before\") el.insertBefore(probe, el.firstChild);\n    else el.appendChild(probe);\n    const r = probe.getBoundingClientRect();\n    probe.remove();\n    return r;\n  };\n  const pickQuoteChar = (forEl, isOpen) => {\n    let depth = 0;\n    let p = forEl.parentElement;\n    while (p != null) {\n      if (p.tagName === \"Q\") depth++;\n      p = p.parentElement;\n    }\n    const cs = window.getComputedStyle(forEl).quotes;\n    if (cs == null || cs === \"\" || cs === \"none\" || cs === \"auto\") {\n      const pairs = [[\"\\u201C\", \"\\u201D\"], [\"\\u2018\", \"\\u2019\"]];\n      const pair = pairs[Math.min(depth, pairs.length - 1)];\n      return isOpen ? pair[0] : pair[1];\n    }\n    const tokens = [];\n    let i = 0;\n    while (i < cs.length) {\n      if (cs[i] === '\"') {\n        let j = i + 1;\n        let s = \"\";\n        while (j < cs.length && cs[j] !== '\"') {\n          if (cs[j] === \"\\\\\") {\n            s += cs[j + 1];\n            j += 2;\n          } else {\n            s += cs[j];\n            j++;\n          }\n        }\n        tokens.push(s);\n        i = j + 1;\n      } else {\n        i++;\n      }\n    }\n    if (tokens.length < 2) {\n      const pair = [\"\\u201C\", \"\\u201D\"];\n      return isOpen ? pair[0] : pair[1];\n    }\n    const pairIdx = Math.min(depth, Math.floor((tokens.length - 1) / 2));\n    return isOpen ? tokens[pairIdx * 2] : tokens[pairIdx * 2 + 1];\n  };\n  const parsePseudoContent = (content, el, counterSnapshot, pseudo) => {\n    let text = \"\";\n    let imageUrl = \"\";\n    let i = 0;\n    while (i < content.length) {\n      const c = content[i];\n      if (c === '\"' || c === \"'\") {\n        const end = content.indexOf(c, i + 1);\n        if (end < 0) break;\n        text += content.slice(i + 1, end);\n        i = end + 1;\n      } else if (content.startsWith(\"attr(\", i)) {\n        const end = content.indexOf(\")\", i);\n        if (end < 0) break;\n        const attrName = content.slice(i + 5, end).trim();\n        text += el.getAttribute(attrName) || \"\";\n        i = end + 1;\n      } else if (content.startsWith(\"url(\", i)) {\n        const end = content.indexOf(\")\", i);\n        if (end < 0) break;\n        let url = content.slice(i + 4, end).trim();\n        if (url.startsWith('\"') && url.endsWith('\"') || url.startsWith(\"'\") && url.endsWith(\"'\")) {\n          url = url.slice(1, -1);\n        }\n        imageUrl = url;\n        i = end + 1;\n      } else if (content.startsWith(\"counter(\", i) || content.startsWith(\"counters(\", i)) {\n        const isCounters = content.startsWith(\"counters(\", i);\n        const openIdx = i + (isCounters ? \"counters(\".length : \"counter(\".length);\n        const closeIdx = content.indexOf(\")\", openIdx);\n        if (closeIdx < 0) {\n          i++;\n          continue;\n        }\n        const args = content.slice(openIdx, closeIdx).split(\",\").map((s) => {\n          const t = s.trim();\n          if (t.startsWith('\"') && t.endsWith('\"') || t.startsWith(\"'\") && t.endsWith(\"'\")) {\n            return t.slice(1, -1);\n          }\n          return t;\n        });\n        const cname = args[0];\n        const sep = isCounters ? args[1] ?? \"\" : \"\";\n        const styleArg = isCounters ? args[2] : args[1];\n        const useStyle = styleArg != null && styleArg !== \"\" && resolveCounterValue != null;\n        const format = (v) => {\n          if (!useStyle) return String(v);\n          const out = resolveCounterValue(styleArg, v);\n          return out != null ? out : String(v);\n        };\n        const captured = counterSnapshot.get(el);\n        const snapshot = captured?.[pseudo] ?? captured?.element ?? captured ?? [];\n        const matches = snapshot.filter((s) => s.name === cname).map((s) => format(s.value));\n        if (isCounters) {\n          text += matches.length > 0 ? matches.join(sep) : format(0);\n        } else {\n          text += matches.length > 0 ? matches[matches.length - 1] : format(0);\n        }\n        i = closeIdx + 1;\n      } else if (content.startsWith(\"open-quote\", i)) {\n        text += pickQuoteChar(el, true);\n        i += \"open-quote\".length;\n      } else if (content.startsWith(\"close-quote\", i)) {\n        text += pickQuoteChar(el, false);\n        i += \"close-quote\".length;\n      } else if (content.startsWith(\"no-open-quote\", i)) {\n        i += \"no-open-quote\".length;\n      } else if (content.startsWith(\"no-close-quote\", i)) {\n        i += \"no-close-quote\".length;\n      } else {\n        i++;\n      }\n    }\n    return { text, imageUrl };\n  };\n  const captureEmptyContentBox = (el, cs, pseudo, pcs, rect) => {\n    const bgRaw = pcs.backgroundColor;\n    const hasBg = bgRaw && bgRaw !== \"\" && bgRaw !== \"rgba(0, 0, 0, 0)\" && bgRaw !== \"transparent\";\n    const bgImgRaw = pcs.backgroundImage;\n    const hasBgImg = hasCssValue(bgImgRaw);\n    const rawBorderWidths = sideWidths(pcs, \"border\", \"Width\");\n    const bwT = rawBorderWidths.top * effectiveZoomFor(el);\n    const bwR = rawBorderWidths.right * effectiveZoomFor(el);\n    const bwB = rawBorderWidths.bottom * effectiveZoomFor(el);\n    const bwL = rawBorderWidths.left * effectiveZoomFor(el);\n    const hasBorder = bwT > 0 || bwR > 0 || bwB > 0 || bwL > 0;\n    const isBlockLike = pcs.display === \"block\" || pcs.display === \"inline-block\" || pcs.display === \"flex\";\n    if (isBlockLike && (hasBg || hasBgImg || hasBorder)) {\n      const zoom = effectiveZoomFor(el);\n      const hostPadL = physicalNumber(el, cs.paddingLeft);\n      const hostPadT = physicalNumber(el, cs.paddingTop);\n      const hostBorL = physicalNumber(el, cs.borderLeftWidth);\n      const hostBorT = physicalNumber(el, cs.borderTopWidth);\n      const hostBorR = physicalNumber(el, cs.borderRightWidth);\n      const pMarL = physicalNumber(el, pcs.marginLeft);\n      const rawPadding = sideWidths(pcs, \"padding\", \"\");\n      const pPadL = rawPadding.left * zoom;\n      const pPadR = rawPadding.right * zoom;\n      const pPadT = rawPadding.top * zoom;\n      const pPadB = rawPadding.bottom * zoom;\n      const hostContentW = rect.width - hostBorL - hostBorR - hostPadL - physicalNumber(el, cs.paddingRight);\n      const pcsW = parseFloat(pcs.width);\n      const pcsH = parseFloat(pcs.height);\n      const contentW = !isNaN(pcsW) ? pcsW * zoom : hostContentW - pMarL - physicalNumber(el, pcs.marginRight);\n      const contentH = !isNaN(pcsH) ? pcsH * zoom : 0;\n      const borderBoxW = contentW + pPadL + pPadR + bwL + bwR;\n      const borderBoxH = contentH + pPadT + pPadB + bwT + bwB;\n      let borderBoxX;\n      let borderBoxY;\n      if (pcs.position === \"absolute\" || pcs.position === \"fixed\") {\n        const pr = probePseudoAbsoluteBoxRect(el, pseudo, pcs);\n        borderBoxX = pr.left - vp.x;\n        borderBoxY = pr.top - vp.y;\n      } else {\n        const pMarT = physicalNumber(el, pcs.marginTop);\n        borderBoxX = rect.left - vp.x + hostBorL + hostPadL + pMarL;\n        borderBoxY = rect.top - vp.y + hostBorT + hostPadT + pMarT;\n        const hostFlex = cs.display === \"flex\" || cs.display === \"inline-flex\";\n        const justify = cs.justifyContent || \"\";\n        const pushesEnd = justify.indexOf(\"space-between\") >= 0 || justify.indexOf(\"flex-end\") >= 0 || justify === \"end\" || justify === \"right\";\n        if (pseudo === \"::after\" && hostFlex && pushesEnd) {\n          const hostPadR = physicalNumber(el, cs.paddingRight);\n          const pMarR = physicalNumber(el, pcs.marginRight);\n          borderBoxX = rect.right - vp.x - hostBorR - hostPadR - pMarR - borderBoxW;\n          if (cs.alignItems === \"center\") {\n            const hostBorB = physicalNumber(el, cs.borderBottomWidth);\n            const hostPadB = physicalNumber(el, cs.paddingBottom);\n            const contentH2 = rect.height - hostBorT - hostBorB - hostPadT - hostPadB;\n            borderBoxY = rect.top - vp.y + hostBorT + hostPadT + (contentH2 - borderBoxH) / 2 + pMarT;\n          }\n        }\n        const dispIsInline = pcs.display === \"inline-block\" || pcs.display === \"inline-flex\" || pcs.display === \"inline-grid\" || pcs.display === \"inline-table\";\n        if (dispIsInline) {\n          const pr = probePseudoStaticBoxRect(el, pseudo, pcs);\n          borderBoxY = pr.top - vp.y;\n          if (pseudo === \"::after\") {\n            borderBoxX = pr.left - vp.x;\n          } else {\n            const pMarR = physicalNumber(el, pcs.marginRight);\n            borderBoxX = pr.left - vp.x - pMarR - borderBoxW - pMarL;\n          }\n        }\n      }\n      let degenerateHostTransform = false;\n      if (cs.transform && cs.transform !== \"none\") {\n        const m2 = /^matrix\\(\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)\\s*,\\s*([-\\d.eE]+)/.exec(cs.transform);\n        if (m2) {\n          const a = parseFloat(m2[1]);\n          const b = parseFloat(m2[2]);\n          const c = parseFloat(m2[3]);\n          const d = parseFloat(m2[4]);\n          if (Math.abs(a * d - b * c) < 1e-9) degenerateHostTransform = true;\n        }\n      }\n      if (borderBoxW > 0 && borderBoxH > 0 && !degenerateHostTransform) {\n        const pcsComposedRaw = composeEffectiveTransform2 != null ? composeEffectiveTransform2(pcs) : pcs.transform || \"none\";\n        const pcsComposed = physicalTransform(el, pcsComposedRaw);\n        const pcsTransform = pcsComposed && pcsComposed !== \"none\" ? pcsComposed : void 0;\n        const pcsTransformOrigin = pcsTransform != null ? physicalComputedCssPixelTerms(pcs.transformOrigin || \"\", zoom) || void 0 : void 0;\n        const pcsZ = parseInt(pcs.zIndex, 10);\n        const pcsZIndex = Number.isFinite(pcsZ) ? pcsZ : void 0;\n        const pcsFilter = physicalFilter(el, pcs.filter);\n        return {\n          // DM-1001: track which pseudo emitted this box so the renderer\n          // can paint ::after pseudo-elements AFTER the host's text (the\n          // CSS render order). The earlier \"emit all pseudoBoxes ahead of\n          // text\" gate (line 2370) is right for ::before but wrong for\n          // ::after — NYT's right-edge fade-out overlays the headline\n          // text via `::after { background: linear-gradient(transparent,\n          // white) }`, so painting it under the text leaves the headline\n          // sharp instead of fading.\n          pseudo,\n          x: borderBoxX,\n          y: borderBoxY,\n          width: borderBoxW,\n          height: borderBoxH,\n          backgroundColor: hasBg ? normColor(bgRaw) : void 0,\n          backgroundImage: hasBgImg ? bgImgRaw : void 0,\n          // DM-1121: a gradient pseudo's background-position / -size and its\n          // own opacity steer where the gradient core lands and how strong it\n          // paints (Stripe's keynote glow is an off-center, 45%-opacity pink\n          // radial). Capture position/size only alongside a background-image,\n          // and opacity only when it actually dims the box (< 1).\n          backgroundPosition: hasBgImg ? physicalComputedCssPixelTerms(pcs.backgroundPosition, zoom) : void 0,\n          backgroundSize: hasBgImg ? physicalComputedCssPixelTerms(pcs.backgroundSize, zoom) : void 0,\n          opacity: (function() {\n            var o = parseFloat(pcs.opacity);\n            return isFinite(o) && o < 1 ? o : void 0;\n          })(),\n          borderTopWidth: bwT,\n          borderTopColor: bwT > 0 ? normColor(pcs.borderTopColor) : void 0,\n          borderTopStyle: pcs.borderTopStyle,\n          borderRightWidth: bwR,\n          borderRightColor: bwR > 0 ? normColor(pcs.borderRightColor) : void 0,\n          borderRightStyle: pcs.borderRightStyle,\n          borderBottomWidth: bwB,\n          borderBottomColor: bwB > 0 ? normColor(pcs.borderBottomColor) : void 0,\n          borderBottomStyle: pcs.borderBottomStyle,\n          borderLeftWidth: bwL,\n          borderLeftColor: bwL > 0 ? normColor(pcs.borderLeftColor) : void 0,\n          borderLeftStyle: pcs.borderLeftStyle,\n          borderRadius: physicalNumber(el, pcs.borderRadius),\n          transform: pcsTransform,\n          transformOrigin: pcsTransformOrigin,\n          zIndex: pcsZIndex,\n          filter: pcsFilter\n        };\n      }\n    }\n    return null;\n  };\n  const capturePseudoContent = (el, cs, rect, counterSnapshot) => {\n    const pseudoSegments = [];\n    const pseudoBoxes = [];\n    for (const pseudo of [\"::before\", \"::after\"]) {\n      const pcs = window.getComputedStyle(el, pseudo);\n      const content = pcs.content;\n      if (content == null || content === \"none\" || content === \"normal\" || content === \"\") continue;\n      const opacityNum = parseFloat(pcs.opacity);\n      if (Number.isFinite(opacityNum) && opacityNum === 0) continue;\n      const { text, imageUrl } = parsePseudoContent(content, el, counterSnapshot, pseudo);\n      if (text === \"\" && imageUrl === \"\") {\n        const box = captureEmptyContentBox(el, cs, pseudo, pcs, rect);\n        if (box != null) pseudoBoxes.push(box);\n        continue;\n      }\n      if (imageUrl !== \"\" && text === \"\") {\n        const probeImg = new Image();\n        probeImg.src = imageUrl;\n        const imageZoom = effectiveZoomFor(el);\n        const intrinsicW = (probeImg.naturalWidth || 0) * imageZoom;\n        const intrinsicH = (probeImg.naturalHeight || 0) * imageZoom;\n        let layoutW = (parseFloat(pcs.width) || 0) * imageZoom;\n        let layoutH = (parseFloat(pcs.height) || 0) * imageZoom;\n        if (layoutW <= 0) layoutW = intrinsicW || 24;\n        if (layoutH <= 0) layoutH = intrinsicH || 24;\n        const renderW = intrinsicW > 0 ? intrinsicW : layoutW;\n        const renderH = intrinsicH > 0 ? intrinsicH : layoutH;\n        const elTop2 = rect.top - vp.y + physicalNumber(el, cs.paddingTop) + physicalNumber(el, cs.borderTopWidth);\n        const elLeft2 = rect.left - vp.x + physicalNumber(el, cs.paddingLeft) + physicalNumber(el, cs.borderLeftWidth);\n        const elFontSizeForImg = (parseFloat(pcs.fontSize) || 14) * imageZoom;\n        const lineHImg = (parseFloat(pcs.lineHeight) || (parseFloat(pcs.fontSize) || 14) * 1.2) * imageZoom;\n        const yPosImg = elTop2 + (lineHImg - layoutH) / 2;\n        const imageComposedRaw = composeEffectiveTransform2 != null ? composeEffectiveTransform2(pcs) : pcs.transform || \"none\";\n        const imageComposed = physicalTransform(el, imageComposedRaw);\n        const imageTransform = imageComposed && imageComposed !== \"none\" ? imageComposed : void 0;\n        const imageOpacity = parseFloat(pcs.opacity);\n        pseudoSegments.push({\n          isBefore: pseudo === \"::before\",\n          imageUrl,\n          seg: { text: \"\", x: elLeft2, y: yPosImg, width: layoutW, height: layoutH },\n          renderWidth: renderW,\n          renderHeight: renderH,\n          color: pcs.color,\n          boxMarginLeft: physicalNumber(el, pcs.marginLeft),\n          boxMarginRight: physicalNumber(el, pcs.marginRight),\n          boxBorderLeft: physicalNumber(el, pcs.borderLeftWidth),\n          boxBorderRight: physicalNumber(el, pcs.borderRightWidth),\n          boxPaddingLeft: physicalNumber(el, pcs.paddingLeft),\n          boxPaddingRight: physicalNumber(el, pcs.paddingRight),\n          filter: physicalFilter(el, pcs.filter),\n          opacity: Number.isFinite(imageOpacity) && imageOpacity < 1 ? imageOpacity : void 0,\n          transform: imageTransform,\n          transformOrigin: imageTransform != null ? physicalComputedCssPixelTerms(pcs.transformOrigin || \"\", imageZoom) || void 0 : void 0\n        });\n        continue;\n      }\n      if (text === \"\") continue;\n      const pseudoLayout = probeGeneratedPseudoLayout(el, pseudo, text, pcs);\n      const pPadLMeasured = parseFloat(pcs.paddingLeft) || 0;\n      const pPadRMeasured = parseFloat(pcs.paddingRight) || 0;\n      const pBorLMeasured = parseFloat(pcs.borderLeftWidth) || 0;\n      const pBorRMeasured = parseFloat(pcs.borderRightWidth) || 0;\n      const measuredContentWidth = Math.max(0, pseudoLayout.borderRect.width - pPadLMeasured - pPadRMeasured - pBorLMeasured - pBorRMeasured);\n      const hasUsedBoxWidth = pcs.width !== \"\" && pcs.width !== \"auto\" && (pcs.position === \"absolute\" || pcs.position === \"fixed\");\n      const pseudoWidth = hasUsedBoxWidth ? measuredContentWidth : pseudoLayout.textRect.width > 0 ? pseudoLayout.textRect.width : measuredContentWidth;\n      const elTop = rect.top - vp.y + (parseFloat(cs.paddingTop) || 0) + (parseFloat(cs.borderTopWidth) || 0);\n      const elLeft = rect.left - vp.x + (parseFloat(cs.paddingLeft) || 0) + (parseFloat(cs.borderLeftWidth) || 0);\n      const elFontSize = parseFloat(pcs.fontSize) || 14;\n      const lineH = parseFloat(pcs.lineHeight) || elFontSize * 1.2;\n      const pseudoMetrics = measureFontMetrics(pcs);\n      let xPos;\n      let yPos;\n      let pseudoIsPositioned = false;\n      if (pcs.position === \"absolute\" || pcs.position === \"fixed\") {\n        const pcsLeft = parseFloat(pcs.left);\n        const pcsTop = parseFloat(pcs.top);\n        const pcsRight = parseFloat(pcs.right);\n        const pcsBottom = parseFloat(pcs.bottom);\n        const paddingBoxLeft = rect.left - vp.x + (parseFloat(cs.borderLeftWidth) || 0);\n        const paddingBoxTop = rect.top - vp.y + (parseFloat(cs.borderTopWidth) || 0);\n        const paddingBoxRight = rect.right - vp.x - (parseFloat(cs.borderRightWidth) || 0);\n        const paddingBoxBottom = rect.bottom - vp.y - (parseFloat(cs.borderBottomWidth) || 0);\n        const pPadL = parseFloat(pcs.paddingLeft) || 0;\n        const pPadR = parseFloat(pcs.paddingRight) || 0;\n        const pPadT = parseFloat(pcs.paddingTop) || 0;\n        const pPadB = parseFloat(pcs.paddingBottom) || 0;\n        const pBorL = parseFloat(pcs.borderLeftWidth) || 0;\n        const pBorR = parseFloat(pcs.borderRightWidth) || 0;\n        const pBorT = parseFloat(pcs.borderTopWidth) || 0;\n        const pBorB = parseFloat(pcs.borderBottomWidth) || 0;\n        if (!isNaN(pcsLeft)) xPos = paddingBoxLeft + pcsLeft;\n        else if (!isNaN(pcsRight)) xPos = paddingBoxRight - pcsRight - pseudoWidth - pPadL - pPadR - pBorL - pBorR;\n        else xPos = paddingBoxLeft;\n        if (!isNaN(pcsTop)) yPos = paddingBoxTop + pcsTop;\n        else if (!isNaN(pcsBottom)) yPos = paddingBoxBottom - pcsBottom - lineH - pPadT - pPadB - pBorT - pBorB;\n        else yPos = paddingBoxTop;\n        xPos += pPadL + pBorL;\n        yPos += pPadT + pBorT;\n        yPos += (lineH - elFontSize) / 2;\n        pseudoIsPositioned = true;\n      } else {\n        yPos = elTop + (lineH - elFontSize) / 2;\n        const pcsMarginL = parseFloat(pcs.marginLeft) || 0;\n        const pcsBorderL = parseFloat(pcs.borderLeftWidth) || 0;\n        const pcsPaddingL = parseFloat(pcs.paddingLeft) || 0;\n        const justify = cs.justifyContent || \"\";\n        const hostFlex = cs.display === \"flex\" || cs.display === \"inline-flex\";\n        const pushesEnd = justify.indexOf(\"space-between\") >= 0 || justify.indexOf(\"flex-end\") >= 0 || justify === \"end\" || justify === \"right\";\n        if (pseudo === \"::before\") {\n          xPos = elLeft + pcsMarginL + pcsBorderL + pcsPaddingL;\n        } else if (hostFlex && pushesEnd) {\n          const contentRight = rect.right - vp.x - (parseFloat(cs.borderRightWidth) || 0) - (parseFloat(cs.paddingRight) || 0);\n          xPos = contentRight - pseudoWidth;\n        } else {\n          xPos = elLeft + rect.width - pseudoWidth - 2 * (parseFloat(cs.paddingRight) || 0);\n        }\n      }\n      const pseudoSeg = {\n        text,\n        x: xPos,\n        y: yPos,\n        width: pseudoWidth,\n        height: elFontSize,\n        // Carry pseudo-specific typography so the renderer can respect\n        // per-pseudo color, font-size, font-weight, font-family, font-style\n        // (CSS lets pseudos style independently of their parent — Slashdot's\n        // \"Most Discussed\" carousel heading is a ::after that's italic+bordered\n        // on a non-italic host div).\n        color: pcs.color,\n        fontSize: elFontSize,\n        fontWeight: pcs.fontWeight,\n        fontFamily: pcs.fontFamily,\n        fontStyle: pcs.fontStyle,\n        fontAscent: pseudoMetrics.ascent\n      };\n      const pseudoBgRaw = pcs.backgroundColor;\n      const pseudoBgColor = pseudoBgRaw && pseudoBgRaw !== \"\" && pseudoBgRaw !== \"rgba(0, 0, 0, 0)\" && pseudoBgRaw !== \"transparent\" ? normColor(pseudoBgRaw) : \"\";\n      const pseudoBR = parseFloat(pcs.borderRadius) || 0;\n      const bwTop = parseFloat(pcs.borderTopWidth) || 0;\n      const bwRight = parseFloat(pcs.borderRightWidth) || 0;\n      const bwBottom = parseFloat(pcs.borderBottomWidth) || 0;\n      const bwLeft = parseFloat(pcs.borderLeftWidth) || 0;\n      const bwUniform = bwTop > 0 && bwRight === bwTop && bwBottom === bwTop && bwLeft === bwTop;\n      const pseudoBC = bwUniform ? normColor(pcs.borderTopColor) : \"\";\n      const colorIsPaintable = (raw) => raw !== \"\" && raw !== \"rgba(0, 0, 0, 0)\" && raw !== \"transparent\";\n      const sideBorderTopColor = bwTop > 0 ? normColor(pcs.borderTopColor) : \"\";\n      const sideBorderRightColor = bwRight > 0 ? normColor(pcs.borderRightColor) : \"\";\n      const sideBorderBottomColor = bwBottom > 0 ? normColor(pcs.borderBottomColor) : \"\";\n      const sideBorderLeftColor = bwLeft > 0 ? normColor(pcs.borderLeftColor) : \"\";\n      const hasPerSideBorder = !bwUniform && (bwTop > 0 && colorIsPaintable(sideBorderTopColor) || bwRight > 0 && colorIsPaintable(sideBorderRightColor) || bwBottom > 0 && colorIsPaintable(sideBorderBottomColor) || bwLeft > 0 && colorIsPaintable(sideBorderLeftColor));\n      const pseudoBgImgRaw = pcs.backgroundImage;\n      const hasPseudoBgImg = hasCssValue(pseudoBgImgRaw);\n      const pseudoComposedRaw = composeEffectiveTransform2 != null ? composeEffectiveTransform2(pcs) : pcs.transform || \"none\";\n      const pseudoComposed = physicalTransform(el, pseudoComposedRaw);\n      const pseudoTransform = pseudoComposed && pseudoComposed !== \"none\" ? pseudoComposed : void 0;\n      const pseudoTransformOrigin = pseudoTransform != null ? physicalComputedCssPixelTerms(pcs.transformOrigin || \"\", effectiveZoomFor(el)) || void 0 : void 0;\n      const pseudoFilter = physicalFilter(el, pcs.filter);\n      const pseudoOpacityValue = parseFloat(pcs.opacity);\n      const pseudoOpacity = Number.isFinite(pseudoOpacityValue) && pseudoOpacityValue < 1 ? pseudoOpacityValue : void 0;\n      let pseudoBoxStyles = null;\n      if (pseudoBgColor !== \"\" || hasPseudoBgImg || pseudoBR > 0 || bwUniform && pseudoBC !== \"\" && pseudoBC !== \"rgba(0, 0, 0, 0)\" || hasPerSideBorder || pseudoTransform != null || pseudoFilter != null || pseudoOpacity != null) {\n        pseudoBoxStyles = {\n          padL: parseFloat(pcs.paddingLeft) || 0,\n          padR: parseFloat(pcs.paddingRight) || 0,\n          padT: parseFloat(pcs.paddingTop) || 0,\n          padB: parseFloat(pcs.paddingBottom) || 0,\n          borL: bwLeft,\n          borR: bwRight,\n          borT: bwTop,\n          borB: bwBottom,\n          // Inline-box bg paints at line-height, not at font-size — so\n          // the box's vertical extent is lineH + padding + border (not\n          // fontSize). Capture lineH alongside the metrics; the post-\n          // injection block uses it to compute boxH and boxY (centered\n          // on the line box).\n          lineH,\n          fontSize: elFontSize,\n          measuredWidth: pseudoLayout.borderRect.width,\n          measuredHeight: pseudoLayout.borderRect.height,\n          backgroundColor: pseudoBgColor !== \"\" ? pseudoBgColor : void 0,\n          backgroundImage: hasPseudoBgImg ? pseudoBgImgRaw : void 0,\n          borderRadius: pseudoBR > 0 ? pseudoBR : void 0,\n          borderWidth: bwUniform ? bwTop : void 0,\n          borderColor: bwUniform && pseudoBC !== \"\" && pseudoBC !== \"rgba(0, 0, 0, 0)\" ? pseudoBC : void 0,\n          transform: pseudoTransform,\n          transformOrigin: pseudoTransformOrigin,\n          filter: pseudoFilter,\n          opacity: pseudoOpacity,\n          // Per-side colors. Renderer reads these when no uniform border\n          // is set and emits a `<line>` for each side whose width > 0 and\n          // color is paintable. Undefined when the side has no visible\n          // border, keeping the captured tree compact in the common case.\n          borderTopColor: hasPerSideBorder && bwTop > 0 && colorIsPaintable(sideBorderTopColor) ? sideBorderTopColor : void 0,\n          borderRightColor: hasPerSideBorder && bwRight > 0 && colorIsPaintable(sideBorderRightColor) ? sideBorderRightColor : void 0,\n          borderBottomColor: hasPerSideBorder && bwBottom > 0 && colorIsPaintable(sideBorderBottomColor) ? sideBorderBottomColor : void 0,\n          borderLeftColor: hasPerSideBorder && bwLeft > 0 && colorIsPaintable(sideBorderLeftColor) ? sideBorderLeftColor : void 0\n        };\n      }\n      let allPua = text.length > 0;\n      for (let _ci = 0; _ci < text.length; ) {\n        const cp = text.codePointAt(_ci);\n        const inPua = cp >= 57344 && cp <= 63743 || cp >= 983040 && cp <= 1048573 || cp >= 1048576 && cp <= 1114109;\n        if (!inPua) {\n          allPua = false;\n          break;\n        }\n        _ci += cp > 65535 ? 2 : 1;\n      }\n      if (textNeedsRaster(text) || allPua) {\n        if (allPua && !textNeedsRaster(text)) {\n          pseudoSeg.rasterRect = {\n            x: rect.left - vp.x,\n            y: rect.top - vp.y,\n            width: rect.width,\n            height: rect.height\n          };\n        } else {\n          pseudoSeg.rasterRect = {\n            x: pseudoSeg.x,\n            y: elTop,\n            width: pseudoWidth,\n            height: lineH\n          };\n          const emojiInner = text.replace(/^[\"']|[\"']$/g, \"\").replace(/^\\s+|\\s+$/g, \"\");\n          if (emojiInner.length > 0) {\n            const emojiSide = Math.min(measureGlyphAdvance(emojiInner, pcs), elFontSize * 1.4);\n            if (emojiSide > lineH) pseudoSeg.rasterEmojiSide = emojiSide;\n          }\n        }\n      }\n      pseudoSegments.push({\n        isBefore: pseudo === \"::before\",\n        seg: pseudoSeg,\n        color: pcs.color,\n        isPositioned: pseudoIsPositioned,\n        boxStyles: pseudoBoxStyles\n      });\n    }\n    return { pseudoSegments, pseudoBoxes };\n  };\n  return { capturePseudoContent };\n};\nvar createPseudoContentHandler = (dependencies) => buildPseudoContentHandler(dependencies);\n\n// src/capture/script/walker/input-value.ts\nvar SKIP_VALUE_TYPES = /* @__PURE__ */ new Set([\n  \"range\",\n  \"color\",\n  \"checkbox\",\n  \"radio\",\n  \"file\",\n  \"image\",\n  \"hidden\",\n  \"date\",\n  \"time\",\n  \"datetime-local\",\n  \"month\",\n  \"week\"\n]);\nvar NOT_APPLIED = { applied: false };\nvar createInputValueHandler = ({ vp, normColor, measureFontMetrics }) => {\n  const captureInputValue = (el, cs, tag, rect) => {\n    if (tag !== \"input\" && tag !== \"textarea\") return NOT_APPLIED;\n    const inputType = tag === \"input\" ? el.type || \"text\" : \"\";\n    if (SKIP_VALUE_TYPES.has(inputType)) return NOT_APPLIED;\n    let isPlaceholderCapture = false;\n    let text = \"\";\n    if (!el.value) {\n      const placeholder = el.getAttribute && el.getAttribute(\"placeholder\");\n      if (placeholder != null && placeholder !== \"\") {\n        isPlaceholderCapture = true;\n        text = placeholder;\n      } else {\n        return NOT_APPLIED;\n      }\n    } else {\n      text = inputType === \"password\" ? \"\\u2022\".repeat(el.value.length) : el.value;\n    }\n    const pl = parseFloat(cs.paddingLeft) || 0;\n    const pt = parseFloat(cs.paddingTop) || 0;\n    const pr = parseFloat(cs.paddingRight) || 0;\n    const pb = parseFloat(cs.paddingBottom) || 0;\n    const { left: bl, top: bt, right: br, bottom: bb } = sideWidths(cs, \"border\", \"Width\");\n    let textLeft = rect.left - vp.x + bl + pl;\n    let textTop = rect.top - vp.y + bt + pt;\n    const textHeight = parseFloat(cs.lineHeight) || parseFloat(cs.fontSize) * 1.2;\n    const textWidth = rect.width - bl * 2 - pl * 2;\n    const display = cs.display;\n    const isFlexLike = display === \"flex\" || display === \"inline-flex\" || display === \"grid\" || display === \"inline-grid\";\n    const isSingleLineInput = tag === \"input\";\n    if (isSingleLineInput || isFlexLike && cs.alignItems === \"center\") {\n      const contentH = rect.height - bt - bb - pt - pb;\n      if (contentH > textHeight + 0.5) {\n        textTop = rect.top - vp.y + bt + pt + (contentH - textHeight) / 2;\n      }\n    }\n    const metrics = measureFontMetrics(cs);\n    const fontAscent = metrics.ascent;\n    const fontDescent = metrics.descent;\n    const fontH = fontAscent + fontDescent;\n    const textTopLineBox = textTop;\n    if (cs.lineHeight !== \"normal\" && textHeight > fontH + 0.5) {\n      textTop += (textHeight - fontH) / 2;\n    } else if (fontH > textHeight + 0.5) {\n      textTop -= (fontH - textHeight) / 2;\n    }\n    let textSegments;\n    let inputXOffsets;\n    if (text.length > 0 && tag === \"input\") {\n      const probe = document.createElement(\"span\");\n      probe.style.position = \"absolute\";\n      probe.style.left = \"-9999px\";\n      probe.style.top = \"-9999px\";\n      probe.style.visibility = \"hidden\";\n      probe.style.whiteSpace = \"pre\";\n      probe.style.fontFamily = cs.fontFamily;\n      probe.style.fontSize = cs.fontSize;\n      probe.style.fontWeight = cs.fontWeight;\n      probe.style.fontStyle = cs.fontStyle;\n      probe.style.letterSpacing = cs.letterSpacing;\n      probe.style.fontKerning = cs.fontKerning;\n      probe.style.fontVariationSettings = cs.fontVariationSettings;\n      probe.style.fontOpticalSizing = cs.fontOpticalSizing;\n      probe.style.fontFeatureSettings = cs.fontFeatureSettings;\n      probe.textContent = text;\n      document.body.appendChild(probe);\n      const probeNode = probe.firstChild;\n      if (probeNode != null) {\n        const probeBox = probe.getBoundingClientRect();\n        const probeOriginX = probeBox.left;\n        const xs = [];\n        let i = 0;\n        while (i < text.length) {\n          const code = text.charCodeAt(i);\n          const isHigh = code >= 55296 && code <= 56319 && i + 1 < text.length;\n          const step = isHigh ? 2 : 1;\n          const rng = document.createRange();\n          rng.setStart(probeNode, i);\n          rng.setEnd(probeNode, i + step);\n          const cr = rng.getBoundingClientRect();\n          const left = cr.left - probeOriginX + textLeft;\n          for (let k = 0; k < step; k++) xs.push(left);\n          i += step;\n        }\n        const contentBoxW = rect.width - bl - br - pl - pr;\n        const probeW = probeBox.width;\n        const slack = contentBoxW - probeW;\n        const align = cs.textAlign;\n        const dir = cs.direction;\n        let shift = 0;\n        if (slack > 0) {\n          if (align === \"center\") shift = slack / 2;\n          else if (align === \"right\" || align === \"end\" && dir !== \"rtl\" || align === \"start\" && dir === \"rtl\") shift = slack;\n        }\n        if (shift !== 0) {\n          textLeft += shift;\n          for (let k = 0; k < xs.length; k++) xs[k] += shift;\n        }\n        inputXOffsets = xs;\n      }\n      document.body.removeChild(probe);\n    }\n    if (text.length > 0 && tag === \"textarea\") {\n      const contentBoxW = rect.width - bl - br - pl - pr;\n      const contentBoxH = rect.height - bt - bb - pt - pb;\n      const probe = document.createElement(\"div\");\n      probe.style.position = \"absolute\";\n      probe.style.left = \"0\";\n      probe.style.top = \"-100000px\";\n      probe.style.visibility = \"hidden\";\n      probe.style.boxSizing = \"content-box\";\n      probe.style.width = contentBoxW + \"px\";\n      probe.style.padding = \"0\";\n      probe.style.margin = \"0\";\n      probe.style.border = \"0\";\n      probe.style.fontFamily = cs.fontFamily;\n      probe.style.fontSize = cs.fontSize;\n      probe.style.fontWeight = cs.fontWeight;\n      probe.style.fontStyle = cs.fontStyle;\n      probe.style.fontVariationSettings = cs.fontVariationSettings;\n      probe.style.fontOpticalSizing = cs.fontOpticalSizing;\n      probe.style.fontFeatureSettings = cs.fontFeatureSettings;\n      probe.style.fontKerning = cs.fontKerning;\n      probe.style.letterSpacing = cs.letterSpacing;\n      probe.style.wordSpacing = cs.wordSpacing;\n      probe.style.lineHeight = cs.lineHeight;\n      probe.style.tabSize = cs.tabSize;\n      probe.style.textAlign = cs.textAlign;\n      probe.style.direction = cs.direction;\n      probe.style.whiteSpace = \"pre-wrap\";\n      probe.style.wordWrap = cs.wordWrap || \"normal\";\n      probe.style.overflowWrap = cs.overflowWrap || \"normal\";\n      probe.style.wordBreak = cs.wordBreak || \"normal\";\n      probe.style.hyphens = cs.hyphens || \"manual\";\n      probe.textContent = text;\n      document.body.appendChild(probe);\n      const probeNode = probe.firstChild;\n      if (probeNode != null) {\n        const probeBox = probe.getBoundingClientRect();\n        const probeOriginX = probeBox.left;\n        const probeOriginY = probeBox.top;\n        const lines = [];\n        let cur = null;\n        for (let i = 0; i < text.length; i++) {\n          const ch = text[i];\n          if (ch === \"\\n\") {\n            if (cur != null) {\n              lines.push(cur);\n              cur = null;\n            }\n            continue;\n          }\n          const code = text.charCodeAt(i);\n          const isHigh = code >= 55296 && code <= 56319 && i + 1 < text.length;\n          const step = isHigh ? 2 : 1;\n          const rng = document.createRange();\n          rng.setStart(probeNode, i);\n          rng.setEnd(probeNode, i + step);\n          const cr = rng.getBoundingClientRect();\n          if (cr.width === 0 && cr.height === 0) {\n            i += step - 1;\n            continue;\n          }\n          const charLeft = cr.left - probeOriginX;\n          const charTop = cr.top - probeOriginY;\n          const charRight = cr.right - probeOriginX;\n          const charBottom = cr.bottom - probeOriginY;\n          if (cur == null || charTop - cur.top > Math.max(1, (cur.bottom - cur.top) * 0.5)) {\n            if (cur != null) lines.push(cur);\n            cur = { text: \"\", xOffsets: [], top: charTop, bottom: charBottom, left: charLeft, right: charRight };\n          }\n          for (let k = 0; k < step; k++) {\n            cur.text += text[i + k];\n            cur.xOffsets.push(textLeft + charLeft);\n          }\n          if (charRight > cur.right) cur.right = charRight;\n          if (charBottom > cur.bottom) cur.bottom = charBottom;\n          i += step - 1;\n        }\n        if (cur != null) lines.push(cur);\n        textSegments = lines.map((ln) => ({\n          text: ln.text,\n          x: textLeft + ln.left,\n          // Snap to a whole pixel: Chrome positions glyphs with SUBPIXEL\n          // precision horizontally only — vertically the text origin is rounded\n          // to an integer device pixel before rasterization. Measured directly:\n          // a box at top 40 / 140.25 / 240.5 / 340.75 paints its first ink row\n          // at 45 / 145 / 246 / 346 — always round(top) + a constant, and always\n          // an integer row (identical for a <textarea> and a plain <div>, so this\n          // is glyph rasterization, not a scroll-container effect). A textarea\n          // whose border box lands on a fractional y (here .4375, from ordinary\n          // page flow) therefore had every line rendered up to a pixel off.\n          // The renderer already rounds the ascent it adds to reach the baseline\n          // (`text-to-path.ts`), so rounding the line top rounds the baseline.\n          y: Math.round(textTopLineBox + ln.top),\n          width: ln.right - ln.left,\n          height: ln.bottom - ln.top,\n          xOffsets: ln.xOffsets\n        }));\n      }\n      document.body.removeChild(probe);\n      void contentBoxH;\n    }\n    let placeholderColor;\n    let placeholderFontStyle;\n    let placeholderFontWeight;\n    if (isPlaceholderCapture) {\n      const phCs = window.getComputedStyle(el, \"::placeholder\");\n      placeholderColor = normColor(phCs.color || cs.color);\n      placeholderFontStyle = phCs.fontStyle;\n      placeholderFontWeight = phCs.fontWeight;\n    }\n    return {\n      applied: true,\n      text,\n      textLeft,\n      textTop,\n      textHeight,\n      textWidth,\n      fontAscent,\n      fontDescent,\n      inputXOffsets,\n      textSegments,\n      isPlaceholderCapture,\n      placeholderColor,\n      placeholderFontStyle,\n      placeholderFontWeight\n    };\n  };\n  return { captureInputValue };\n};\n\n// src/capture/script/vertical-orientation.generated.ts\nvar MIXED_VERTICAL_UPRIGHT_RANGES = [\n  [167, 167],\n  [169, 169],\n  [174, 174],\n  [177, 177],\n  [188, 190],\n  [215, 215],\n  [247, 247],\n  [746, 747],\n  [4352, 4607],\n  [5121, 5759],\n  [6320, 6399],\n  [8214, 8214],\n  [8216, 8217],\n  [8220, 8221],\n  [8224, 8225],\n  [8240, 8241],\n  [8251, 8252],\n  [8258, 8258],\n  [8263, 8265],\n  [8273, 8273],\n  [8293, 8293],\n  [8413, 8416],\n  [8418, 8420],\n  [8448, 8449],\n  [8451, 8457],\n  [8463, 8463],\n  [8467, 8468],\n  [8470, 8471],\n  [8478, 8483],\n  [8485, 8485],\n  [8487, 8487],\n  [8489, 8489],\n  [8494, 8494],\n  [8501, 8511],\n  [8517, 8522],\n  [8524, 8525],\n  [8527, 8585],\n  [8588, 8591],\n  [8734, 8734],\n  [8756, 8757],\n  [8960, 8967],\n  [8972, 8991],\n  [8996, 9003],\n  [9085, 9114],\n  [9150, 9165],\n  [9167, 9167],\n  [9169, 9179],\n  [9186, 9250],\n  [9252, 9471],\n  [9632, 9753],\n  [9760, 10087],\n  [10102, 10131],\n  [11026, 11055],\n  [11088, 11097],\n  [11159, 11159],\n  [11192, 11217],\n  [11219, 11243],\n  [11248, 11263],\n  [11856, 11857],\n  [11904, 42191],\n  [43360, 43391],\n  [44032, 55295],\n  [57344, 64255],\n  [65040, 65055],\n  [65072, 65096],\n  [65104, 65111],\n  [65113, 65122],\n  [65127, 65135],\n  [65281, 65292],\n  [65294, 65307],\n  [65311, 65376],\n  [65504, 65511],\n  [65520, 65528],\n  [65532, 65533],\n  [67968, 67999],\n  [71040, 71167],\n  [72192, 72383],\n  [77824, 83583],\n  [94176, 101887],\n  [110576, 111359],\n  [118464, 118735],\n  [118784, 119295],\n  [119520, 119679],\n  [120832, 121519],\n  [126976, 129023],\n  [129280, 129791],\n  [131072, 196605],\n  [196608, 262141],\n  [983040, 1048573],\n  [1048576, 1114109]\n];\n\n// src/capture/script/walker/text-segments.ts\nvar computeElementRaster = (el, cs, tag, rect, vp) => {\n  void el;\n  void cs;\n  void tag;\n  void rect;\n  void vp;\n  return void 0;\n};\nvar mathItalicChar = (ch) => {\n  const code = ch.codePointAt(0);\n  if (code == null) return ch;\n  if (code >= 65 && code <= 90) return String.fromCodePoint(119860 + (code - 65));\n  if (code >= 97 && code <= 122) {\n    if (code === 104) return \"\\u210E\";\n    return String.fromCodePoint(119886 + (code - 97));\n  }\n  if (code >= 913 && code <= 937) return String.fromCodePoint(120546 + (code - 913));\n  if (code >= 945 && code <= 969) return String.fromCodePoint(120572 + (code - 945));\n  switch (code) {\n    case 8706:\n      return String.fromCodePoint(120597);\n    // ∂ → italic partial differential\n    case 1013:\n      return String.fromCodePoint(120598);\n    // ϵ (lunate) → italic epsilon symbol\n    case 977:\n      return String.fromCodePoint(120599);\n    // ϑ (theta sym) → italic theta symbol\n    case 1008:\n      return String.fromCodePoint(120600);\n    // ϰ (kappa sym) → italic kappa symbol\n    case 981:\n      return String.fromCodePoint(120601);\n    // ϕ (phi sym) → italic phi symbol\n    case 1009:\n      return String.fromCodePoint(120602);\n    // ϱ (rho sym) → italic rho symbol\n    case 982:\n      return String.fromCodePoint(120603);\n    // ϖ (pi sym) → italic pi symbol\n    case 8711:\n      return String.fromCodePoint(120571);\n    // ∇ (nabla) → italic nabla (upper-block tail)\n    default:\n      return ch;\n  }\n};\nvar _RE_LETTER = /\\p{L}/u;\nvar _RE_WORD_CHAR = /[\\p{L}\\p{M}\\p{N}]/u;\nvar _MIDWORD_CONNECTORS = \"'\\u2019\\xB7\\u0387\\u05F4\";\nvar TITLECASE_DIGRAPHS = {\n  \"\\u01C4\": \"\\u01C5\",\n  \"\\u01C6\": \"\\u01C5\",\n  \"\\u01C7\": \"\\u01C8\",\n  \"\\u01C9\": \"\\u01C8\",\n  \"\\u01CA\": \"\\u01CB\",\n  \"\\u01CC\": \"\\u01CB\",\n  \"\\u01F1\": \"\\u01F2\",\n  \"\\u01F3\": \"\\u01F2\"\n};\nvar capitalizeCss = (s) => {\n  let atWordStart = true;\n  let out = \"\";\n  for (const ch of s) {\n    if (atWordStart && _RE_LETTER.test(ch)) {\n      out += TITLECASE_DIGRAPHS[ch] || ch.toUpperCase();\n    } else {\n      out += ch;\n    }\n    atWordStart = !_RE_WORD_CHAR.test(ch) && _MIDWORD_CONNECTORS.indexOf(ch) < 0;\n  }\n  return out;\n};\nvar transformTextWithSourceSpans = (source, transform, lang) => {\n  const out = [];\n  let atWordStart = true;\n  for (let i = 0; i < source.length; ) {\n    const cp = source.codePointAt(i);\n    const sourceText = String.fromCodePoint(cp);\n    let rendered = sourceText;\n    if (transform === \"uppercase\") rendered = lang ? sourceText.toLocaleUpperCase(lang) : sourceText.toUpperCase();\n    else if (transform === \"lowercase\") rendered = lang ? sourceText.toLocaleLowerCase(lang) : sourceText.toLowerCase();\n    else if (transform === \"capitalize\" && atWordStart && _RE_LETTER.test(sourceText)) {\n      rendered = TITLECASE_DIGRAPHS[sourceText] || (lang ? sourceText.toLocaleUpperCase(lang) : sourceText.toUpperCase());\n    }\n    out.push({ sourceStart: i, sourceEnd: i + sourceText.length, sourceText, rendered });\n    atWordStart = !_RE_WORD_CHAR.test(sourceText) && _MIDWORD_CONNECTORS.indexOf(sourceText) < 0;\n    i += sourceText.length;\n  }\n  const joined = out.map((part) => part.rendered).join(\"\");\n  const whole = transform === \"uppercase\" ? lang ? source.toLocaleUpperCase(lang) : source.toUpperCase() : transform === \"lowercase\" ? lang ? source.toLocaleLowerCase(lang) : source.toLowerCase() : transform === \"capitalize\" ? capitalizeCss(source) : source;\n  if (whole.length === joined.length && whole !== joined) {\n    let offset = 0;\n    for (const part of out) {\n      part.rendered = whole.slice(offset, offset + part.rendered.length);\n      offset += part.rendered.length;\n    }\n  }\n  return out;\n};\nvar isShapingTransparentControl = (ch) => ch === \"\\u200C\" || ch === \"\\u200D\";\nvar isMixedVerticalUpright = (cp) => {\n  if (cp == null) return false;\n  let lo = 0;\n  let hi = MIXED_VERTICAL_UPRIGHT_RANGES.length - 1;\n  while (lo <= hi) {\n    const mid = lo + hi >>> 1;\n    const range = MIXED_VERTICAL_UPRIGHT_RANGES[mid];\n    if (cp < range[0]) hi = mid - 1;\n    else if (cp > range[1]) lo = mid + 1;\n    else return true;\n  }\n  return false;\n};\nvar resolveCharOrientation = (ch, textOrientation) => {\n  if (textOrientation === \"upright\") return \"upright\";\n  if (textOrientation === \"sideways\") return \"rotated\";\n  return isMixedVerticalUpright(ch.codePointAt(0)) ? \"upright\" : \"rotated\";\n};\nvar buildTextSegmentsHandler = ({ vp, measureFontMetrics, rasterCandidates, normColor, markGetsDottedCircle, finalizeLineClampText }) => {\n  const finishLineClamp = (el, cs, result) => finalizeLineClampText == null ? result : finalizeLineClampText(el, cs, result);\n  const captureVerticalTextSegments = (el, cs) => {\n    const wm = cs.writingMode;\n    const textOrientation = cs.textOrientation || \"mixed\";\n    const isSideways = wm === \"sideways-rl\" || wm === \"sideways-lr\";\n    const effectiveTextOrientation = isSideways ? \"sideways\" : textOrientation;\n    const textSegments = [];\n    let text = \"\";\n    let minLeft = Infinity;\n    let minTop = Infinity;\n    let maxRight = -Infinity;\n    let maxBottom = -Infinity;\n    const _vertCanvas = document.createElement(\"canvas\");\n    const _vertCtx = _vertCanvas.getContext(\"2d\");\n    _vertCtx.font = `${cs.fontStyle || \"normal\"} ${cs.fontWeight || \"400\"} ${cs.fontSize} ${cs.fontFamily}`;\n    const measureNaturalWidth = (ch) => _vertCtx.measureText(ch).width;\n    const allChars = [];\n    for (const node of el.childNodes) {\n      if (node.nodeType !== Node.TEXT_NODE) continue;\n      const sourceRaw = node.textContent || \"\";\n      const tt = cs.textTransform;\n      const mapped = transformTextWithSourceSpans(sourceRaw, tt, cs.lang || el.lang || \"\");\n      const raw = mapped.map((part) => part.rendered).join(\"\");\n      if (!raw.trim()) continue;\n      text += raw.trim() + \" \";\n      for (const part of mapped) {\n        const r = document.createRange();\n        r.setStart(node, part.sourceStart);\n        r.setEnd(node, part.sourceEnd);\n        const cr = r.getBoundingClientRect();\n        const ch = part.rendered;\n        const isWs = /^\\s+$/.test(part.sourceText);\n        if (cr.height === 0 && (cr.width === 0 || isWs)) continue;\n        allChars.push({ ch, x: cr.left, y: cr.top, w: cr.width, h: cr.height, naturalW: measureNaturalWidth(ch) });\n      }\n    }\n    if (allChars.length === 0) {\n      return { applied: true, text: text.trim(), textSegments };\n    }\n    const tcu = cs.textCombineUpright || cs.webkitTextCombine || \"\";\n    const isCombineAll = tcu === \"all\";\n    if (isCombineAll) {\n      const metricsC = measureFontMetrics(cs);\n      let cellTop = Infinity, cellBot = -Infinity, minX = Infinity, maxX = -Infinity;\n      for (const c of allChars) {\n        cellTop = Math.min(cellTop, c.y);\n        cellBot = Math.max(cellBot, c.y + c.h);\n        minX = Math.min(minX, c.x);\n        maxX = Math.max(maxX, c.x + c.w);\n      }\n      const combinedText = allChars.map((c) => c.ch).join(\"\").replace(/[\\t\\n\\r]/g, \" \");\n      const xOffsets = allChars.map((c) => c.x - minX);\n      textSegments.push({\n        text: combinedText,\n        x: minX - vp.x,\n        y: cellTop - vp.y,\n        width: maxX - minX,\n        height: cellBot - cellTop,\n        verticalWritingMode: wm,\n        verticalCombineUpright: true,\n        verticalCombineXOffsets: xOffsets,\n        fontAscent: metricsC.ascent\n      });\n      return {\n        applied: true,\n        text: combinedText,\n        textSegments,\n        textLeft: minX - vp.x,\n        textTop: cellTop - vp.y,\n        textWidth: maxX - minX,\n        textHeight: cellBot - cellTop,\n        fontAscent: metricsC.ascent,\n        fontDescent: metricsC.descent\n      };\n    }\n    const columns = [];\n    let curCol = null;\n    for (const c of allChars) {\n      if (curCol == null || Math.abs(c.x - curCol.x) > 1) {\n        if (curCol != null) columns.push(curCol);\n        curCol = { x: c.x, width: c.w, chars: [c] };\n      } else {\n        curCol.chars.push(c);\n      }\n    }\n    if (curCol != null) columns.push(curCol);\n    const metrics = measureFontMetrics(cs);\n    for (const col of columns) {\n      const colTop = col.chars[0].y;\n      const colBot = col.chars[col.chars.length - 1].y + col.chars[col.chars.length - 1].h;\n      const visualText = col.chars.map((c) => c.ch).join(\"\").replace(/[\\t\\n\\r]/g, \" \");\n      if (visualText.replace(/\\s/g, \"\") === \"\") continue;\n      const yOffsets = [];\n      const verticalOrientations = [];\n      const verticalAdvances = [];\n      const verticalNaturalWidths = [];\n      for (const c of col.chars) {\n        for (let k = 0; k < c.ch.length; k++) {\n          yOffsets.push(c.y - vp.y);\n          verticalOrientations.push(resolveCharOrientation(c.ch, effectiveTextOrientation));\n          verticalAdvances.push(c.h);\n          verticalNaturalWidths.push(c.naturalW);\n        }\n      }\n      textSegments.push({\n        text: visualText,\n        x: col.x - vp.x,\n        y: colTop - vp.y,\n        width: col.width,\n        height: colBot - colTop,\n        verticalWritingMode: wm,\n        verticalOrientations,\n        yOffsets,\n        verticalAdvances,\n        verticalNaturalWidths,\n        fontAscent: metrics.ascent\n      });\n      minLeft = Math.min(minLeft, col.x);\n      minTop = Math.min(minTop, colTop);\n      maxRight = Math.max(maxRight, col.x + col.width);\n      maxBottom = Math.max(maxBottom, colBot);\n    }\n    return {\n      applied: true,\n      text: text.trim(),\n      textSegments,\n      textLeft: minLeft - vp.x,\n      textTop: minTop - vp.y,\n      textWidth: maxRight - minLeft,\n      textHeight: maxBottom - minTop,\n      fontAscent: metrics.ascent,\n      fontDescent: metrics.descent\n    };\n  };\n  const buildFirstLetterSegment = (firstLetterChars, flStyle, hasInitialLetter, el, cs) => {\n    const styledText = firstLetterChars.map((c) => c.ch).join(\"\");\n    const minL = Math.min(...firstLetterChars.map((c) => c.left));\n    const maxR = Math.max(...firstLetterChars.map((c) => c.right));\n    const minT = Math.min(...firstLetterChars.map((c) => c.top));\n    const maxB = Math.max(...firstLetterChars.map((c) => c.bottom));\n    const xoff = [];\n    for (const c of firstLetterChars) {\n      for (let k = 0; k < c.ch.length; k++) xoff.push(c.left - vp.x);\n    }\n    const flMetrics = measureFontMetrics(flStyle);\n    let effectiveFs = parseFloat(flStyle.fontSize) || void 0;\n    let effectiveAscent = flMetrics.ascent;\n    let styledSegY = minT - vp.y;\n    const flFloatSize = flStyle.float || flStyle.cssFloat || \"\";\n    const flIsFloatSize = flFloatSize === \"left\" || flFloatSize === \"right\";\n    if (hasInitialLetter) {\n      const probeCanvas = document.createElement(\"canvas\");\n      const probeCtx = probeCanvas.getContext(\"2d\");\n      probeCtx.font = `${flStyle.fontStyle || \"normal\"} ${flStyle.fontWeight || \"400\"} 100px ${flStyle.fontFamily || \"serif\"}`;\n      const probeM = probeCtx.measureText(styledText);\n      const naturalWidthAt100 = probeM.width;\n      const ascentRatio = probeM.fontBoundingBoxAscent / 100;\n      const hM = probeCtx.measureText(\"H\");\n      const capHeightRatio = hM.actualBoundingBoxAscent / 100;\n      const pseudoComputedW = parseFloat(flStyle.width);\n      if (Number.isFinite(pseudoComputedW) && pseudoComputedW > 0 && naturalWidthAt100 > 0) {\n        const paintedGlyphW = pseudoComputedW;\n        effectiveFs = 100 * paintedGlyphW / naturalWidthAt100;\n        const flFloatForSize = flStyle.float || flStyle.cssFloat || \"\";\n        const pseudoComputedH = parseFloat(flStyle.height);\n        const glyphInkH100 = (probeM.actualBoundingBoxAscent || 0) + (probeM.actualBoundingBoxDescent || 0);\n        const glyphInkW100 = (probeM.actualBoundingBoxLeft || 0) + (probeM.actualBoundingBoxRight || 0);\n        if ((flFloatForSize === \"left\" || flFloatForSize === \"right\") && Number.isFinite(pseudoComputedH) && pseudoComputedH > 0 && glyphInkH100 > 0) {\n          effectiveFs = 100 * pseudoComputedH / glyphInkH100;\n        } else if (!flIsFloatSize && glyphInkW100 > 0) {\n          effectiveFs = 100 * pseudoComputedW / glyphInkW100;\n        }\n        effectiveAscent = effectiveFs * ascentRatio;\n      }\n    }\n    const flFloat = flStyle.float || flStyle.cssFloat || \"\";\n    const padT = parseFloat(flStyle.paddingTop) || 0;\n    const padR = parseFloat(flStyle.paddingRight) || 0;\n    const padB = parseFloat(flStyle.paddingBottom) || 0;\n    const padL = parseFloat(flStyle.paddingLeft) || 0;\n    let pboxL, pboxT, pboxW, pboxH;\n    if (flFloat === \"left\" || flFloat === \"right\") {\n      const pBox = el.getBoundingClientRect();\n      const pPadT = parseFloat(cs.paddingTop) || 0;\n      const pPadL = parseFloat(cs.paddingLeft) || 0;\n      const pPadR = parseFloat(cs.paddingRight) || 0;\n      const pBorT = parseFloat(cs.borderTopWidth) || 0;\n      const pBorL = parseFloat(cs.borderLeftWidth) || 0;\n      const pBorR = parseFloat(cs.borderRightWidth) || 0;\n      const flMarT = parseFloat(flStyle.marginTop) || 0;\n      const flMarL = parseFloat(flStyle.marginLeft) || 0;\n      const flMarR = parseFloat(flStyle.marginRight) || 0;\n      const cw = parseFloat(flStyle.width);\n      const ch_ = parseFloat(flStyle.height);\n      pboxW = (Number.isFinite(cw) && cw > 0 ? cw : maxR - minL) + padL + padR;\n      pboxH = (Number.isFinite(ch_) && ch_ > 0 ? ch_ : maxB - minT) + padT + padB;\n      pboxT = pBox.y + pBorT + pPadT + flMarT - vp.y;\n      pboxL = flFloat === \"left\" ? pBox.x + pBorL + pPadL + flMarL - vp.x : pBox.x + pBox.width - pBorR - pPadR - flMarR - pboxW - vp.x;\n    } else {\n      pboxL = minL - vp.x - padL;\n      pboxT = minT - vp.y - padT;\n      pboxW = maxR - minL + padL + padR;\n      pboxH = maxB - minT + padT + padB;\n    }\n    let flGlyphX = minL - vp.x;\n    const flIsFloat = flFloat === \"left\" || flFloat === \"right\";\n    if (hasInitialLetter && effectiveFs != null && flIsFloat) {\n      const contentBottom = pboxT + pboxH - padB;\n      styledSegY = contentBottom - effectiveAscent;\n      const contentLeft = pboxL + padL;\n      const contentW = pboxW - padL - padR;\n      const glyphW = maxR - minL;\n      flGlyphX = contentLeft + (contentW - glyphW) / 2;\n    }\n    const bwT = parseFloat(flStyle.borderTopWidth) || 0;\n    const bwR_ = parseFloat(flStyle.borderRightWidth) || 0;\n    const bwB = parseFloat(flStyle.borderBottomWidth) || 0;\n    const bwL = parseFloat(flStyle.borderLeftWidth) || 0;\n    const uniformBw = bwT > 0 && bwT === bwR_ && bwT === bwB && bwT === bwL;\n    const bgRaw = flStyle.backgroundColor;\n    const hasBg = bgRaw && bgRaw !== \"\" && bgRaw !== \"rgba(0, 0, 0, 0)\" && bgRaw !== \"transparent\";\n    const bgImgRaw = flStyle.backgroundImage;\n    const hasBgImg = bgImgRaw && bgImgRaw !== \"\" && bgImgRaw !== \"none\";\n    const brad = parseFloat(flStyle.borderRadius) || 0;\n    const hasAnyBox = hasBg || hasBgImg || brad > 0 || bwT > 0 || bwR_ > 0 || bwB > 0 || bwL > 0;\n    const pseudoBox = hasAnyBox ? {\n      x: pboxL,\n      y: pboxT,\n      width: pboxW,\n      height: pboxH,\n      backgroundColor: hasBg ? normColor(bgRaw) : void 0,\n      backgroundImage: hasBgImg ? bgImgRaw : void 0,\n      borderRadius: brad > 0 ? brad : void 0,\n      borderWidth: uniformBw ? bwT : void 0,\n      borderColor: uniformBw ? normColor(flStyle.borderTopColor) : void 0,\n      borL: bwL,\n      borR: bwR_,\n      borT: bwT,\n      borB: bwB,\n      borderTopColor: !uniformBw && bwT > 0 ? normColor(flStyle.borderTopColor) : void 0,\n      borderRightColor: !uniformBw && bwR_ > 0 ? normColor(flStyle.borderRightColor) : void 0,\n      borderBottomColor: !uniformBw && bwB > 0 ? normColor(flStyle.borderBottomColor) : void 0,\n      borderLeftColor: !uniformBw && bwL > 0 ? normColor(flStyle.borderLeftColor) : void 0\n    } : void 0;\n    const flTextShadow = flStyle.textShadow !== \"\" && flStyle.textShadow !== \"none\" && flStyle.textShadow !== cs.textShadow ? flStyle.textShadow : void 0;\n    const styledSeg = {\n      text: styledText,\n      x: flGlyphX,\n      y: styledSegY,\n      width: maxR - minL,\n      height: maxB - minT,\n      xOffsets: xoff,\n      color: normColor(flStyle.color),\n      fontFamily: flStyle.fontFamily,\n      fontSize: effectiveFs,\n      fontWeight: flStyle.fontWeight !== cs.fontWeight ? flStyle.fontWeight : void 0,\n      fontStyle: flStyle.fontStyle !== cs.fontStyle ? flStyle.fontStyle : void 0,\n      fontVariant: flStyle.fontVariant !== cs.fontVariant ? flStyle.fontVariant : void 0,\n      fontAscent: effectiveAscent,\n      textShadow: flTextShadow,\n      pseudoBox\n    };\n    return { seg: styledSeg, minL, maxR, minT, maxB };\n  };\n  const captureTextSegments = (el, cs) => {\n    const wm = cs.writingMode;\n    if (wm === \"vertical-rl\" || wm === \"vertical-lr\" || wm === \"sideways-rl\" || wm === \"sideways-lr\") {\n      return finishLineClamp(el, cs, captureVerticalTextSegments(el, cs));\n    }\n    const textSegments = [];\n    let text = \"\";\n    let minLeft = Infinity;\n    let minTop = Infinity;\n    let maxRight = -Infinity;\n    let maxBottom = -Infinity;\n    const flStyle = window.getComputedStyle(el, \"::first-letter\");\n    const elFsRaw = parseFloat(cs.fontSize) || 0;\n    const flFsRaw = parseFloat(flStyle.fontSize) || 0;\n    const flInitialLetterRaw = (flStyle.initialLetter || flStyle.webkitInitialLetter || \"\").trim();\n    const hasInitialLetter = flInitialLetterRaw !== \"\" && flInitialLetterRaw !== \"normal\" && flInitialLetterRaw !== \"auto\";\n    const firstLetterStyled = flFsRaw > 0 && Math.abs(flFsRaw - elFsRaw) > 0.5 || flStyle.color !== \"\" && flStyle.color !== cs.color || flStyle.fontWeight !== \"\" && flStyle.fontWeight !== cs.fontWeight || flStyle.fontFamily !== \"\" && flStyle.fontFamily !== cs.fontFamily || flStyle.fontStyle !== \"\" && flStyle.fontStyle !== cs.fontStyle || flStyle.textShadow !== \"\" && flStyle.textShadow !== \"none\" && flStyle.textShadow !== cs.textShadow || hasInitialLetter;\n    const isFirstLetterPunct = (ch) => /\\p{P}/u.test(ch);\n    const isCombiningMark = (ch) => /\\p{M}/u.test(ch);\n    const selectFirstLetter = (chars) => {\n      let i = 0;\n      while (i < chars.length && /\\s/.test(chars[i].ch)) i++;\n      const start = i;\n      while (i < chars.length && isFirstLetterPunct(chars[i].ch)) i++;\n      if (i < chars.length && !/\\s/.test(chars[i].ch) && !isFirstLetterPunct(chars[i].ch)) {\n        i++;\n        while (i < chars.length && isCombiningMark(chars[i].ch)) i++;\n      }\n      while (i < chars.length && isFirstLetterPunct(chars[i].ch)) i++;\n      return { start, end: i };\n    };\n    let firstLetterChars = null;\n    let firstLetterStartIdx = -1;\n    let firstLetterEndIdx = -1;\n    let didEmitStyledFirstLetter = false;\n    const elTag = el.tagName != null ? el.tagName.toLowerCase() : \"\";\n    const _miText = (el.textContent || \"\").trim();\n    const mathItalicizeMi = elTag === \"mi\" && [..._miText].length === 1 && cs.textTransform === \"math-auto\" && /^[a-zA-ZΑ-ΩΆΈΉΊΌΎΏα-ωϐϑϕϖϗϰϱϵ∂∇]$/u.test(_miText);\n    for (const node of el.childNodes) {\n      if (node.nodeType !== Node.TEXT_NODE) continue;\n      const sourceRaw = node.textContent || \"\";\n      const tt = cs.textTransform;\n      const mapped = transformTextWithSourceSpans(sourceRaw, tt, cs.lang || el.lang || \"\");\n      const raw = mapped.map((part) => part.rendered).join(\"\");\n      if (!raw.trim()) continue;\n      const rawForText = mathItalicizeMi ? mathItalicChar(raw.trim()) : raw.trim();\n      text += rawForText + \" \";\n      const lines = [];\n      let cur = null;\n      for (let sourcePartIndex = 0; sourcePartIndex < mapped.length; sourcePartIndex++) {\n        const part = mapped[sourcePartIndex];\n        const r = document.createRange();\n        r.setStart(node, part.sourceStart);\n        r.setEnd(node, part.sourceEnd);\n        const cr = r.getBoundingClientRect();\n        const isWs = /^\\s+$/.test(part.sourceText);\n        if (cr.width === 0 && (cr.height === 0 || isWs)) continue;\n        let ch = part.rendered;\n        if (mathItalicizeMi) ch = mathItalicChar(ch);\n        let topForGroup = cr.top;\n        let leftForGroup = cr.left;\n        let rightForGroup = cr.right;\n        let bottomForGroup = cr.bottom;\n        if (cur != null && cur.chars.length > 0) {\n          const refH = cur.bottom - cur.top || 16;\n          if (cr.height > refH * 1.5 && cr.bottom > cur.bottom + refH * 0.5) {\n            const peekPart = mapped[sourcePartIndex + 1];\n            if (peekPart != null) {\n              const pr = document.createRange();\n              pr.setStart(node, peekPart.sourceStart);\n              pr.setEnd(node, peekPart.sourceEnd);\n              const pcr = pr.getBoundingClientRect();\n              if (pcr.height > 0 && pcr.height < refH * 1.5) {\n                topForGroup = pcr.top;\n                bottomForGroup = pcr.bottom;\n                leftForGroup = cr.left;\n                rightForGroup = pcr.left;\n              }\n            } else {\n              topForGroup = cr.bottom - refH;\n            }\n          }\n        }\n        const charRec = {\n          ch,\n          sourceText: part.sourceText,\n          left: leftForGroup,\n          top: topForGroup,\n          right: rightForGroup,\n          bottom: bottomForGroup,\n          transformedLengthChanged: ch.length !== part.sourceText.length\n        };\n        if (cur == null || Math.abs(topForGroup - cur.top) > 1) {\n          if (cur != null) lines.push(cur);\n          cur = { chars: [charRec], top: topForGroup, bottom: bottomForGroup, left: leftForGroup, right: rightForGroup };\n        } else {\n          cur.chars.push(charRec);\n          cur.left = Math.min(cur.left, leftForGroup);\n          cur.right = Math.max(cur.right, rightForGroup);\n          cur.bottom = Math.max(cur.bottom, bottomForGroup);\n        }\n      }\n      if (cur != null) lines.push(cur);\n      const fragmentedLines = [];\n      for (const ln of lines) {\n        if (ln.chars.length <= 1) {\n          fragmentedLines.push(ln);\n          continue;\n        }\n        let frag = { chars: [ln.chars[0]], top: ln.top, bottom: ln.bottom };\n        const fragments = [frag];\n        const BIDI_FRAGMENT_GAP_PX = 80;\n        for (let ci = 1; ci < ln.chars.length; ci++) {\n          const prev = ln.chars[ci - 1];\n          const cc = ln.chars[ci];\n          const leftJump = cc.left < prev.left - BIDI_FRAGMENT_GAP_PX;\n          const rightJump = cc.left > prev.right + BIDI_FRAGMENT_GAP_PX;\n          if (leftJump || rightJump) {\n            frag = { chars: [cc], top: ln.top, bottom: ln.bottom };\n            fragments.push(frag);\n          } else {\n            frag.chars.push(cc);\n          }\n        }\n        for (const f of fragments) {\n          let l = Infinity;\n          let r = -Infinity;\n          for (const c of f.chars) {\n            if (c.left < l) l = c.left;\n            if (c.right > r) r = c.right;\n          }\n          f.left = l;\n          f.right = r;\n          fragmentedLines.push(f);\n        }\n      }\n      lines.length = 0;\n      for (const fl of fragmentedLines) lines.push(fl);\n      for (const ln of lines) {\n        ln.text = ln.chars.map((c) => c.ch).join(\"\");\n        ln.sourceText = ln.chars.map((c) => c.sourceText).join(\"\");\n        if (!ln.chars.some((c) => c.transformedLengthChanged)) {\n          const xo = [];\n          for (const c of ln.chars) {\n            for (let k = 0; k < c.ch.length; k++) xo.push(c.left);\n          }\n          ln.xOffsets = xo;\n        }\n      }\n      for (const line of lines) {\n        const visualText = line.text.replace(/[\\t\\n\\r]/g, \" \");\n        if (visualText.replace(/\\s/g, \"\") === \"\") continue;\n        const isFirstStyledLine = firstLetterStyled && firstLetterChars == null;\n        if (isFirstStyledLine) {\n          const sel = selectFirstLetter(line.chars);\n          firstLetterStartIdx = sel.start;\n          firstLetterEndIdx = sel.end;\n          firstLetterChars = [];\n        }\n        const rasterGlyphs = [];\n        const rasterSpans = rasterCandidates(visualText, cs.fontVariantEmoji);\n        const rasterSpanAt = new Map(rasterSpans.map((span) => [span.start, span]));\n        const dottedCircleMarks = [];\n        let probeConsulted = false;\n        let clusterHasBase = false;\n        let utf16Idx = 0;\n        for (let ci = 0; ci < line.chars.length; ci++) {\n          const cRec = line.chars[ci];\n          const cp = cRec.ch.codePointAt(0);\n          const isMark = /\\p{M}/u.test(cRec.ch);\n          const isWs = /^\\s+$/.test(cRec.ch);\n          const isClusterLetter = !isMark && /\\p{Lo}|\\p{Lm}/u.test(cRec.ch);\n          let flaggedHere = false;\n          if (markGetsDottedCircle != null && (isMark || isClusterLetter) && !clusterHasBase && cp != null) {\n            probeConsulted = true;\n            if (markGetsDottedCircle(cp, cRec.ch, cs.fontFamily)) {\n              dottedCircleMarks.push(utf16Idx);\n              flaggedHere = true;\n            }\n          }\n          if (flaggedHere) {\n            clusterHasBase = true;\n          } else if (isMark) {\n          } else if (isWs) {\n            clusterHasBase = false;\n          } else if (isShapingTransparentControl(cRec.ch)) {\n          } else {\n            clusterHasBase = true;\n          }\n          const isFirstLetterChar = isFirstStyledLine && ci >= firstLetterStartIdx && ci < firstLetterEndIdx;\n          if (isFirstLetterChar) {\n            firstLetterChars.push(cRec);\n            rasterGlyphs.push({\n              charIndex: utf16Idx,\n              rect: { x: 0, y: 0, width: 0, height: 0 },\n              suppressGlyph: true\n            });\n          } else if (cp != null && rasterSpanAt.has(utf16Idx)) {\n            const span = rasterSpanAt.get(utf16Idx);\n            let spanRight = cRec.right;\n            let spanBottom = cRec.bottom;\n            let spanCi = ci + 1;\n            let spanUtf16 = utf16Idx + cRec.ch.length;\n            while (spanCi < line.chars.length && spanUtf16 < span.end) {\n              const member = line.chars[spanCi++];\n              spanRight = Math.max(spanRight, member.right);\n              spanBottom = Math.max(spanBottom, member.bottom);\n              spanUtf16 += member.ch.length;\n            }\n            rasterGlyphs.push({\n              charIndex: utf16Idx,\n              charLength: span.end - span.start,\n              rect: {\n                x: cRec.left - vp.x,\n                y: cRec.top - vp.y,\n                width: spanRight - cRec.left,\n                height: spanBottom - cRec.top\n              },\n              // DM-905: the embedded-font default path emits the codepoint\n              // as a PUA `<text>` against the system fallback subset font\n              // where it lands as the font's .notdef tofu — peeking out\n              // past the rasterGlyph overlay's edges. Suppressing the glyph\n              // replaces the codepoint with ZWSP before the emit so only\n              // the raster image paints.\n              suppressGlyph: true\n            });\n          }\n          utf16Idx += cRec.ch.length;\n        }\n        textSegments.push({\n          text: visualText,\n          sourceText: line.sourceText,\n          x: line.left - vp.x,\n          y: line.top - vp.y,\n          width: line.right - line.left,\n          height: line.bottom - line.top,\n          // A length-changing transform (e.g. ß → SS) has one DOM Range for\n          // multiple rendered codepoints, so CSSOM exposes no internal glyph\n          // anchors. Let HarfBuzz shape that rendered run normally instead of\n          // inventing duplicate offsets from the source span.\n          xOffsets: line.xOffsets?.map((v) => v - vp.x),\n          // AX exposes the exact retained fragment after this synchronous\n          // walk. Keep Range advances so the refinement can remove laid-out\n          // but unpainted clamp-tail glyphs without estimating their widths.\n          xAdvances: line.xOffsets == null ? void 0 : line.chars.flatMap((c) => Array.from({ length: c.ch.length }, () => c.right - c.left)),\n          rasterGlyphs: rasterGlyphs.length > 0 ? rasterGlyphs : void 0,\n          dottedCircleMarks: dottedCircleMarks.length > 0 ? dottedCircleMarks : probeConsulted ? [] : void 0\n        });\n        minLeft = Math.min(minLeft, line.left);\n        minTop = Math.min(minTop, line.top);\n        maxRight = Math.max(maxRight, line.right);\n        maxBottom = Math.max(maxBottom, line.bottom);\n      }\n    }\n    if (firstLetterChars != null && firstLetterChars.length > 0) {\n      const fl = buildFirstLetterSegment(firstLetterChars, flStyle, hasInitialLetter, el, cs);\n      textSegments.unshift(fl.seg);\n      didEmitStyledFirstLetter = true;\n      minLeft = Math.min(minLeft, fl.minL);\n      minTop = Math.min(minTop, fl.minT);\n      maxRight = Math.max(maxRight, fl.maxR);\n      maxBottom = Math.max(maxBottom, fl.maxB);\n    }\n    const flLineTargetIdx = didEmitStyledFirstLetter ? 1 : 0;\n    if (textSegments.length > flLineTargetIdx) {\n      const flLineStyle = window.getComputedStyle(el, \"::first-line\");\n      const firstSeg = textSegments[flLineTargetIdx];\n      if (flLineStyle.textTransform !== cs.textTransform && firstSeg.sourceText != null) {\n        const firstLineMap = transformTextWithSourceSpans(\n          firstSeg.sourceText,\n          flLineStyle.textTransform,\n          flLineStyle.lang || cs.lang || el.lang || \"\"\n        );\n        firstSeg.text = firstLineMap.map((part) => part.rendered).join(\"\").replace(/[\\t\\n\\r]/g, \" \");\n        if (firstLineMap.some((part) => part.rendered.length !== part.sourceText.length)) firstSeg.xOffsets = void 0;\n      }\n      if (flLineStyle.fontVariant !== \"\" && flLineStyle.fontVariant !== cs.fontVariant) {\n        firstSeg.fontVariant = flLineStyle.fontVariant;\n      }\n      if (flLineStyle.color !== \"\" && flLineStyle.color !== cs.color) {\n        firstSeg.color = flLineStyle.color;\n      }\n      if (flLineStyle.fontWeight !== \"\" && flLineStyle.fontWeight !== cs.fontWeight) {\n        firstSeg.fontWeight = flLineStyle.fontWeight;\n      }\n      if (flLineStyle.fontStyle !== \"\" && flLineStyle.fontStyle !== cs.fontStyle) {\n        firstSeg.fontStyle = flLineStyle.fontStyle;\n      }\n      const flFs = parseFloat(flLineStyle.fontSize);\n      const elFs2 = parseFloat(cs.fontSize);\n      if (flFs > 0 && Math.abs(flFs - elFs2) > 0.1) {\n        firstSeg.fontSize = flFs;\n      }\n    }\n    text = text.trim();\n    if (minLeft < Infinity) {\n      const metrics = measureFontMetrics(cs);\n      return finishLineClamp(el, cs, {\n        applied: true,\n        text,\n        textSegments,\n        textLeft: minLeft - vp.x,\n        textTop: minTop - vp.y,\n        textWidth: maxRight - minLeft,\n        textHeight: maxBottom - minTop,\n        fontAscent: metrics.ascent,\n        fontDescent: metrics.descent\n      });\n    }\n    return finishLineClamp(el, cs, { applied: true, text, textSegments });\n  };\n  return { captureTextSegments };\n};\nvar createTextSegmentsHandler = (dependencies) => buildTextSegmentsHandler(dependencies);\n\n// src/capture/script/walker/pseudo-inject.ts\nvar createPseudoInjectHandler = () => {\n  const injectPseudoSegments = (el, pseudoSegments, textSegments, state) => {\n    const pseudoImages = [];\n    let { text, textLeft, textTop, textWidth, textHeight, fontAscent } = state;\n    for (const p of pseudoSegments) {\n      if (p.imageUrl) {\n        const mL = p.boxMarginLeft || 0;\n        const mR = p.boxMarginRight || 0;\n        const bL = p.boxBorderLeft || 0;\n        const bR = p.boxBorderRight || 0;\n        const pL = p.boxPaddingLeft || 0;\n        const pR = p.boxPaddingRight || 0;\n        if (p.isBefore && textSegments.length > 0) {\n          const firstSeg = textSegments[0];\n          p.seg.x = firstSeg.x - p.seg.width - pR - bR - mR;\n          p.seg.y = firstSeg.y + (firstSeg.height - p.seg.height) / 2;\n        } else if (!p.isBefore && textSegments.length > 0) {\n          const lastSeg = textSegments[textSegments.length - 1];\n          p.seg.x = lastSeg.x + lastSeg.width + mL + bL + pL;\n          p.seg.y = lastSeg.y + (lastSeg.height - p.seg.height) / 2;\n        }\n        pseudoImages.push({\n          url: p.imageUrl,\n          x: p.seg.x,\n          y: p.seg.y,\n          width: p.renderWidth,\n          height: p.renderHeight,\n          filter: p.filter,\n          opacity: p.opacity,\n          transform: p.transform,\n          transformOrigin: p.transformOrigin\n        });\n        continue;\n      }\n      if (p.isPositioned) {\n        if (p.isBefore) textSegments.unshift(p.seg);\n        else textSegments.push(p.seg);\n      } else if (p.isBefore && textSegments.length > 0) {\n        const firstSeg = textSegments[0];\n        const bs = p.boxStyles || {};\n        const mRb = parseFloat(window.getComputedStyle(el, \"::before\").marginRight) || 0;\n        const flushX = firstSeg.x - p.seg.width - (bs.padR || 0) - (bs.borR || 0) - mRb;\n        p.seg.x = Math.min(flushX, p.seg.x);\n        p.seg.y = firstSeg.y;\n        p.seg.height = firstSeg.height;\n        textSegments.unshift(p.seg);\n      } else if (!p.isBefore && textSegments.length > 0) {\n        const lastSeg = textSegments[textSegments.length - 1];\n        const bs = p.boxStyles || {};\n        const mLa = parseFloat(window.getComputedStyle(el, \"::after\").marginLeft) || 0;\n        const hcs = window.getComputedStyle(el);\n        const hostIsFlex = hcs.display === \"flex\" || hcs.display === \"inline-flex\";\n        const hostJc = hcs.justifyContent;\n        const flexSpread = hostIsFlex && hostJc != null && hostJc !== \"\" && hostJc !== \"flex-start\" && hostJc !== \"start\" && hostJc !== \"normal\";\n        if (flexSpread) {\n          if (hcs.alignItems === \"center\") {\n            const elRect2 = el.getBoundingClientRect();\n            const padT = parseFloat(hcs.paddingTop) || 0;\n            const padB = parseFloat(hcs.paddingBottom) || 0;\n            const borT = parseFloat(hcs.borderTopWidth) || 0;\n            const borB = parseFloat(hcs.borderBottomWidth) || 0;\n            const contentCenterY = elRect2.top + borT + padT + (elRect2.height - borT - borB - padT - padB) / 2;\n            const pseudoFs = p.seg.fontSize || lastSeg.height;\n            let lineH = parseFloat(window.getComputedStyle(el, \"::after\").lineHeight);\n            if (isNaN(lineH) || lineH <= 0) lineH = pseudoFs * 1.2;\n            p.seg.y = contentCenterY - lineH / 2;\n            p.seg.height = pseudoFs;\n          } else {\n            p.seg.y = lastSeg.y;\n            p.seg.height = lastSeg.height;\n          }\n        } else {\n          p.seg.x = lastSeg.x + lastSeg.width + mLa + (bs.borL || 0) + (bs.padL || 0);\n          p.seg.y = lastSeg.y;\n          p.seg.height = lastSeg.height;\n        }\n        const elRect = el.getBoundingClientRect();\n        const ecs = window.getComputedStyle(el);\n        const pdL = parseFloat(ecs.paddingLeft) || 0;\n        const bdL = parseFloat(ecs.borderLeftWidth) || 0;\n        const lastBottom = lastSeg.y + lastSeg.height;\n        const elBottom = elRect.bottom - (parseFloat(ecs.paddingBottom) || 0) - (parseFloat(ecs.borderBottomWidth) || 0);\n        const wrapThreshold = lastSeg.height * 0.8;\n        if (elBottom - lastBottom >= wrapThreshold) {\n          p.seg.x = elRect.x + bdL + pdL;\n          p.seg.y = lastBottom;\n          const trimmedText = p.seg.text.replace(/^\\s+/, \"\");\n          if (trimmedText !== p.seg.text && trimmedText !== \"\") {\n            const aps = window.getComputedStyle(el, \"::after\");\n            const sp = document.createElement(\"span\");\n            sp.style.cssText = \"position:absolute;visibility:hidden;white-space:pre;left:-99999px;top:-99999px;margin:0;padding:0;border:0\";\n            sp.style.fontFamily = aps.fontFamily;\n            sp.style.fontSize = aps.fontSize;\n            sp.style.fontWeight = aps.fontWeight;\n            sp.style.fontStyle = aps.fontStyle;\n            sp.style.letterSpacing = aps.letterSpacing;\n            sp.textContent = trimmedText;\n            document.body.appendChild(sp);\n            const wTrim = sp.getBoundingClientRect().width;\n            sp.remove();\n            p.seg.text = trimmedText;\n            if (wTrim > 0) p.seg.width = wTrim;\n          }\n        }\n        textSegments.push(p.seg);\n      } else if (!p.isBefore) {\n        const ps = window.getComputedStyle(el, \"::after\");\n        const sentinel = document.createElement(\"span\");\n        sentinel.style.cssText = \"visibility:hidden;pointer-events:none;white-space:pre\";\n        sentinel.style.fontFamily = ps.fontFamily;\n        sentinel.style.fontSize = ps.fontSize;\n        sentinel.style.fontWeight = ps.fontWeight;\n        sentinel.style.fontStyle = ps.fontStyle;\n        sentinel.style.letterSpacing = ps.letterSpacing;\n        sentinel.style.marginLeft = ps.marginLeft;\n        sentinel.textContent = p.seg.text;\n        el.appendChild(sentinel);\n        const sr = sentinel.getBoundingClientRect();\n        sentinel.remove();\n        if (sr.width > 0 || sr.height > 0) {\n          p.seg.x = sr.left;\n          p.seg.y = sr.top + (sr.height - p.seg.height) / 2;\n        }\n        textSegments.push(p.seg);\n      } else {\n        textSegments.push(p.seg);\n      }\n      if (textSegments.length === 1 && textSegments[0] === p.seg) {\n        textLeft = p.seg.x;\n        textTop = p.seg.y;\n        textWidth = p.seg.width;\n        textHeight = p.seg.height;\n        if (p.seg.fontAscent != null) fontAscent = p.seg.fontAscent;\n      }\n      if (p.seg.rasterRect != null) {\n        const isHostSized = p.seg.rasterRect.width > p.seg.width + 1;\n        if (!isHostSized) {\n          p.seg.rasterRect.x = p.seg.x;\n          p.seg.rasterRect.y = p.seg.y;\n          p.seg.rasterRect.height = p.seg.height;\n          if (p.seg.rasterEmojiSide != null && p.seg.rasterEmojiSide > p.seg.height) {\n            const vpad = (p.seg.rasterEmojiSide - p.seg.height) / 2;\n            p.seg.rasterRect.y -= vpad;\n            p.seg.rasterRect.height += 2 * vpad;\n          }\n        }\n      }\n      if (p.boxStyles != null) {\n        const bs = p.boxStyles;\n        const lineCenter = p.seg.y + bs.fontSize / 2;\n        const boxTop = lineCenter - bs.lineH / 2 - bs.padT - bs.borT;\n        const bx = p.seg.x - bs.padL - bs.borL;\n        const bw = bs.measuredWidth || p.seg.width + bs.padL + bs.padR + bs.borL + bs.borR;\n        const bh = bs.measuredHeight || bs.lineH + bs.padT + bs.padB + bs.borT + bs.borB;\n        if (bw > 0 && bh > 0) {\n          p.seg.pseudoBox = {\n            x: bx,\n            y: boxTop,\n            width: bw,\n            height: bh,\n            backgroundColor: bs.backgroundColor,\n            // DM-782: gradient/url() bg-image plumbing — renderer threads\n            // each comma-separated layer through `buildBackgroundLayerDef`\n            // and paints rect(s) behind the glyphs (mirrors the empty-\n            // content pseudoBox path in `element-tree-to-svg.ts`).\n            backgroundImage: bs.backgroundImage,\n            borderRadius: bs.borderRadius,\n            borderWidth: bs.borderWidth,\n            borderColor: bs.borderColor,\n            // Per-side widths + colors for non-uniform borders (e.g. a\n            // bare `border-bottom` on a pseudo). Width fields are always\n            // emitted so the renderer doesn't have to fall back to zero\n            // when a `borderWidth` (uniform) shorthand is absent.\n            borL: bs.borL,\n            borR: bs.borR,\n            borT: bs.borT,\n            borB: bs.borB,\n            borderTopColor: bs.borderTopColor,\n            borderRightColor: bs.borderRightColor,\n            borderBottomColor: bs.borderBottomColor,\n            borderLeftColor: bs.borderLeftColor,\n            // DM-783: pseudo's `transform` + `transformOrigin`. Renderer\n            // wraps the box + glyphs in a pre-baked\n            // translate-(transform)-translate matrix so the rotation/scale\n            // pivots around the box-relative origin instead of (0,0).\n            transform: bs.transform,\n            transformOrigin: bs.transformOrigin,\n            filter: bs.filter,\n            opacity: bs.opacity\n          };\n        }\n      }\n      text = p.isBefore ? p.seg.text + \" \" + text : text + \" \" + p.seg.text;\n    }\n    return { pseudoImages, text, textLeft, textTop, textWidth, textHeight, fontAscent };\n  };\n  return { injectPseudoSegments };\n};\n\n// src/render/resize-handle.ts\nfunction blinkOverflowValueIsScrollable(value) {\n  const normalized = value?.trim().toLowerCase();\n  return normalized != null && normalized !== \"visible\" && normalized !== \"clip\";\n}\nfunction blinkIsScrollContainer(input) {\n  return input.isLayoutReplaced !== true && (blinkOverflowValueIsScrollable(input.overflowX) || blinkOverflowValueIsScrollable(input.overflowY));\n}\nfunction blinkCanResize(input) {\n  const resize = input.resize?.trim().toLowerCase();\n  return resize != null && resize !== \"none\" && (input.isLayoutIFrame === true || blinkIsScrollContainer(input));\n}\nfunction blinkResizerIsOnLogicalLeft(direction, writingMode) {\n  return direction?.trim().toLowerCase() === \"rtl\" && (writingMode == null || writingMode.trim().toLowerCase() === \"horizontal-tb\");\n}\nfunction blinkResizerThickness(input) {\n  const vertical = input.verticalScrollbarThickness;\n  const horizontal = input.horizontalScrollbarThickness;\n  if (vertical == null && horizontal == null) {\n    return {\n      width: input.themeThickness,\n      height: input.themeThickness,\n      hasScrollbar: false\n    };\n  }\n  if (vertical != null && horizontal == null) {\n    return { width: vertical, height: vertical, hasScrollbar: true };\n  }\n  if (vertical == null && horizontal != null) {\n    return { width: horizontal, height: horizontal, hasScrollbar: true };\n  }\n  return { width: vertical, height: horizontal, hasScrollbar: true };\n}\nfunction blinkPixelSnappedSize(size, location2) {\n  let snapped = Math.round(location2 + size) - Math.round(location2);\n  if (snapped === 0 && Math.abs(size) > 4 / 64) snapped = size > 0 ? 1 : -1;\n  return snapped;\n}\nfunction blinkResizerCorner(input) {\n  const originX = Math.round(input.x);\n  const originY = Math.round(input.y);\n  const snappedWidth = blinkPixelSnappedSize(input.borderBoxWidth, input.x);\n  const snappedHeight = blinkPixelSnappedSize(input.borderBoxHeight, input.y);\n  return {\n    x: originX + (input.logicalLeft ? input.borderLeftWidth : snappedWidth - input.cornerWidth - input.borderRightWidth),\n    y: originY + snappedHeight - input.cornerHeight - input.borderBottomWidth,\n    width: input.cornerWidth,\n    height: input.cornerHeight\n  };\n}\nfunction blinkUsesCustomResizer(canResize, isScrollContainer, pseudoRuleMatched) {\n  return canResize && isScrollContainer && pseudoRuleMatched;\n}\n\n// src/capture/script/walker/resize-handle.ts\nvar _layoutReplacedTags = /* @__PURE__ */ new Set([\n  \"img\",\n  \"video\",\n  \"canvas\",\n  \"object\",\n  \"embed\",\n  \"audio\",\n  \"iframe\",\n  \"input\",\n  \"select\"\n]);\nvar _hasAxisScrollbar = (overflow, scrollExtent, clientExtent) => {\n  if (overflow === \"scroll\") return true;\n  return overflow === \"auto\" && scrollExtent > clientExtent;\n};\nvar createResizeHandleHandler = ({\n  resolvePseudo,\n  normColor,\n  effectiveZoomFor,\n  themeThickness,\n  scaleFromDIP,\n  vp\n}) => {\n  const captureResizeHandle = (el, cs, tag, rect) => {\n    const activation = {\n      resize: cs.resize,\n      overflowX: cs.overflowX,\n      overflowY: cs.overflowY,\n      isLayoutReplaced: _layoutReplacedTags.has(tag),\n      isLayoutIFrame: tag === \"iframe\"\n    };\n    if (!blinkCanResize(activation)) return void 0;\n    const isScrollContainer = blinkIsScrollContainer(activation);\n    const zoom = effectiveZoomFor(el);\n    const borderLeft = Math.round((parseFloat(cs.borderLeftWidth) || 0) * zoom);\n    const borderRight = Math.round((parseFloat(cs.borderRightWidth) || 0) * zoom);\n    const borderBottom = Math.round((parseFloat(cs.borderBottomWidth) || 0) * zoom);\n    const hasVertical = isScrollContainer && _hasAxisScrollbar(cs.overflowY, el.scrollHeight, el.clientHeight);\n    const hasHorizontal = isScrollContainer && _hasAxisScrollbar(cs.overflowX, el.scrollWidth, el.clientWidth);\n    const verticalGap = Math.max(0, rect.width - el.clientWidth * zoom - borderLeft - borderRight);\n    const horizontalGap = Math.max(\n      0,\n      rect.height - el.clientHeight * zoom - Math.round((parseFloat(cs.borderTopWidth) || 0) * zoom) - borderBottom\n    );\n    const thickness = blinkResizerThickness({\n      themeThickness,\n      verticalScrollbarThickness: hasVertical ? verticalGap > 0.5 ? Math.round(verticalGap) : themeThickness : null,\n      horizontalScrollbarThickness: hasHorizontal ? horizontalGap > 0.5 ? Math.round(horizontalGap) : themeThickness : null\n    });\n    const logicalLeft = blinkResizerIsOnLogicalLeft(cs.direction, cs.writingMode);\n    const corner = blinkResizerCorner({\n      x: rect.left,\n      y: rect.top,\n      borderBoxWidth: rect.width,\n      borderBoxHeight: rect.height,\n      borderLeftWidth: borderLeft,\n      borderRightWidth: borderRight,\n      borderBottomWidth: borderBottom,\n      cornerWidth: thickness.width,\n      cornerHeight: thickness.height,\n      logicalLeft\n    });\n    const pseudo = resolvePseudo(el, \"resizer\");\n    const custom = blinkUsesCustomResizer(true, isScrollContainer, pseudo.matched) ? {\n      // Authored dimensions are evidence only. Blink overrides the custom\n      // layout object's size with CornerRect before ObjectPainter runs.\n      authoredWidth: pseudo.width || void 0,\n      authoredHeight: pseudo.height || void 0,\n      backgroundColor: pseudo.backgroundColor ? normColor(pseudo.backgroundColor) : void 0,\n      backgroundImage: pseudo.backgroundImage || void 0,\n      borderRadius: pseudo.borderRadius || void 0,\n      border: pseudo.border || void 0,\n      boxShadow: pseudo.boxShadow || void 0,\n      effectiveZoom: zoom\n    } : void 0;\n    return {\n      x: corner.x - vp.x,\n      y: corner.y - vp.y,\n      width: corner.width,\n      height: corner.height,\n      logicalLeft,\n      scaleFromDIP,\n      hasScrollbar: thickness.hasScrollbar,\n      custom\n    };\n  };\n  return { captureResizeHandle };\n};\n\n// src/capture/script/line-clamp.ts\nvar parseBlinkLineClampCount = (value) => {\n  if (typeof value !== \"string\" || !/^\\s*[1-9]\\d*\\s*$/.test(value)) return null;\n  const count = Number.parseInt(value, 10);\n  return Number.isSafeInteger(count) && count > 0 ? count : null;\n};\nvar blinkLineClampActivation = ({\n  webkitLineClamp,\n  webkitBoxOrient,\n  computedDisplay,\n  behaviorallyClamps\n}) => {\n  const clampCount = parseBlinkLineClampCount(webkitLineClamp);\n  if (clampCount == null) return null;\n  if (webkitBoxOrient !== \"vertical\") return null;\n  if (computedDisplay !== \"flow-root\") return null;\n  if (behaviorallyClamps !== true) return null;\n  return { clampCount };\n};\nvar blinkLineClampEllipsisText = (primaryFontHasHorizontalEllipsis) => primaryFontHasHorizontalEllipsis ? \"\\u2026\" : \"...\";\nvar blinkShouldEmitLineClampEllipsis = ({\n  active,\n  clampCount,\n  totalLineCount,\n  emptyLine = false,\n  blockInInline = false\n}) => active === true && Number.isInteger(clampCount) && clampCount > 0 && totalLineCount > clampCount && !emptyLine && !blockInInline;\nvar blinkLineClampInlineStart = ({\n  direction,\n  adjacentInlineStart,\n  adjacentInlineEnd,\n  ellipsisAdvance\n}) => direction === \"rtl\" ? adjacentInlineStart - ellipsisAdvance : adjacentInlineEnd;\nvar blinkLineClampLineIsVisible = (logicalLineIndex, clampCount) => Number.isInteger(logicalLineIndex) && Number.isInteger(clampCount) && logicalLineIndex >= 0 && logicalLineIndex < clampCount;\nvar VERTICAL_WRITING_RE = /^(?:vertical|sideways)-/;\nvar collectTextCharacters = (root, vertical) => {\n  const chars = [];\n  const walker = root.ownerDocument.createTreeWalker(root, NodeFilter.SHOW_TEXT);\n  for (let node = walker.nextNode(); node != null; node = walker.nextNode()) {\n    const owner = node.parentElement;\n    if (owner == null) continue;\n    const ownerStyle = getComputedStyle(owner);\n    if (ownerStyle.display === \"none\" || ownerStyle.visibility === \"hidden\") continue;\n    const source = node.textContent || \"\";\n    for (let offset = 0; offset < source.length; ) {\n      const cp = source.codePointAt(offset);\n      const ch = String.fromCodePoint(cp);\n      const range = root.ownerDocument.createRange();\n      range.setStart(node, offset);\n      range.setEnd(node, offset + ch.length);\n      const rect = range.getBoundingClientRect();\n      const inlineAdvance = vertical ? rect.height : rect.width;\n      if (rect.width > 0 && rect.height > 0 && !(inlineAdvance === 0 && /^\\s+$/u.test(ch))) {\n        chars.push({\n          node,\n          owner,\n          ch,\n          left: rect.left,\n          right: rect.right,\n          top: rect.top,\n          bottom: rect.bottom\n        });\n      }\n      offset += ch.length;\n    }\n  }\n  return chars;\n};\nvar groupLogicalLines = (chars, writingMode) => {\n  const vertical = VERTICAL_WRITING_RE.test(writingMode);\n  const groups = [];\n  for (const char of chars) {\n    const offset = vertical ? char.left : char.top;\n    let line = groups.find((candidate) => Math.abs(candidate.blockOffset - offset) <= 1);\n    if (line == null) {\n      line = { blockOffset: offset, chars: [] };\n      groups.push(line);\n    }\n    line.chars.push(char);\n  }\n  groups.sort((a, b) => a.blockOffset - b.blockOffset);\n  if (writingMode === \"vertical-rl\" || writingMode === \"sideways-rl\") groups.reverse();\n  return groups;\n};\nvar behaviorallyClampsInClone = (el, cs, writingMode) => {\n  const parent = el.parentNode;\n  if (parent == null) return false;\n  const clone = el.cloneNode(true);\n  clone.setAttribute(\"aria-hidden\", \"true\");\n  clone.inert = true;\n  clone.style.setProperty(\"position\", \"fixed\", \"important\");\n  clone.style.setProperty(\"left\", \"-100000px\", \"important\");\n  clone.style.setProperty(\"top\", \"0\", \"important\");\n  clone.style.setProperty(\"visibility\", \"hidden\", \"important\");\n  clone.style.setProperty(\"pointer-events\", \"none\", \"important\");\n  clone.style.setProperty(\"content-visibility\", \"visible\", \"important\");\n  clone.style.setProperty(\"contain\", \"none\", \"important\");\n  if (VERTICAL_WRITING_RE.test(writingMode)) {\n    clone.style.setProperty(\"height\", cs.height, \"important\");\n    clone.style.setProperty(\"width\", \"auto\", \"important\");\n    clone.style.setProperty(\"min-width\", \"0\", \"important\");\n    clone.style.setProperty(\"max-width\", \"none\", \"important\");\n  } else {\n    clone.style.setProperty(\"width\", cs.width, \"important\");\n    clone.style.setProperty(\"height\", \"auto\", \"important\");\n    clone.style.setProperty(\"min-height\", \"0\", \"important\");\n    clone.style.setProperty(\"max-height\", \"none\", \"important\");\n  }\n  clone.style.setProperty(\"overflow\", \"visible\", \"important\");\n  parent.insertBefore(clone, el.nextSibling);\n  try {\n    return VERTICAL_WRITING_RE.test(writingMode) ? clone.scrollWidth > clone.clientWidth + 0.5 : clone.scrollHeight > clone.clientHeight + 0.5;\n  } finally {\n    clone.remove();\n  }\n};\nvar firstFamily = (familyList) => {\n  const match = /^\\s*(?:\"([^\"]+)\"|'([^']+)'|([^,]+))/.exec(familyList || \"\");\n  return (match?.[1] || match?.[2] || match?.[3] || familyList || \"sans-serif\").trim();\n};\nvar primaryFontHasEllipsis = (doc, cs) => {\n  const primary = firstFamily(cs.fontFamily).toLowerCase();\n  let sawMatchingFace = false;\n  for (const face of doc.fonts) {\n    if ((face.family || \"\").replace(/^['\"]|['\"]$/g, \"\").toLowerCase() !== primary) continue;\n    sawMatchingFace = true;\n    const range = face.unicodeRange || \"U+0-10FFFF\";\n    const covers = range.split(\",\").some((part) => {\n      const match = /U\\+([0-9a-f?]+)(?:-([0-9a-f]+))?/i.exec(part.trim());\n      if (match == null) return false;\n      if (match[1].includes(\"?\")) {\n        const lo2 = Number.parseInt(match[1].replace(/\\?/g, \"0\"), 16);\n        const hi2 = Number.parseInt(match[1].replace(/\\?/g, \"f\"), 16);\n        return 8230 >= lo2 && 8230 <= hi2;\n      }\n      const lo = Number.parseInt(match[1], 16);\n      const hi = match[2] == null ? lo : Number.parseInt(match[2], 16);\n      return 8230 >= lo && 8230 <= hi;\n    });\n    if (covers) return true;\n  }\n  return !sawMatchingFace;\n};\nvar measureMarker = (doc, cs, text, writingMode, scale) => {\n  const probe = doc.createElement(\"span\");\n  probe.setAttribute(\"aria-hidden\", \"true\");\n  probe.textContent = text;\n  probe.style.cssText = \"position:fixed;left:-100000px;top:0;display:inline-block;visibility:hidden;white-space:pre;margin:0;padding:0;border:0;\";\n  probe.style.fontFamily = cs.fontFamily;\n  probe.style.fontSize = cs.fontSize;\n  probe.style.fontWeight = cs.fontWeight;\n  probe.style.fontStyle = cs.fontStyle;\n  probe.style.fontStretch = cs.fontStretch;\n  probe.style.fontKerning = cs.fontKerning;\n  probe.style.fontFeatureSettings = cs.fontFeatureSettings;\n  probe.style.fontVariationSettings = cs.fontVariationSettings;\n  probe.style.fontVariant = cs.fontVariant;\n  probe.style.letterSpacing = cs.letterSpacing;\n  probe.style.lineHeight = cs.lineHeight;\n  probe.style.direction = cs.direction;\n  probe.style.writingMode = writingMode;\n  probe.style.textOrientation = cs.textOrientation;\n  doc.body.appendChild(probe);\n  try {\n    const rect = probe.getBoundingClientRect();\n    return {\n      inlineAdvance: (VERTICAL_WRITING_RE.test(writingMode) ? rect.height : rect.width) * scale,\n      width: rect.width * scale,\n      height: rect.height * scale\n    };\n  } finally {\n    probe.remove();\n  }\n};\nvar createLineClampHandler = ({ vp, measureFontMetrics, normColor, effectiveZoomFor }) => {\n  const contexts = /* @__PURE__ */ new WeakMap();\n  let probeSequence = 0;\n  const analyzeRoot = (el, cs) => {\n    if (contexts.has(el)) return contexts.get(el);\n    const parsed = parseBlinkLineClampCount(cs.webkitLineClamp || \"\");\n    if (parsed == null || cs.webkitBoxOrient !== \"vertical\" || cs.display !== \"flow-root\") {\n      contexts.set(el, null);\n      return null;\n    }\n    const writingMode = cs.writingMode || \"horizontal-tb\";\n    const vertical = VERTICAL_WRITING_RE.test(writingMode);\n    const chars = collectTextCharacters(el, vertical);\n    const lines = groupLogicalLines(chars, writingMode);\n    if (lines.length <= parsed) {\n      contexts.set(el, null);\n      return null;\n    }\n    const activation = blinkLineClampActivation({\n      webkitLineClamp: cs.webkitLineClamp,\n      webkitBoxOrient: cs.webkitBoxOrient,\n      computedDisplay: cs.display,\n      behaviorallyClamps: behaviorallyClampsInClone(el, cs, writingMode)\n    });\n    if (activation == null) {\n      contexts.set(el, null);\n      return null;\n    }\n    const clampLine = lines[activation.clampCount - 1];\n    if (clampLine == null || clampLine.chars.length === 0) {\n      contexts.set(el, null);\n      return null;\n    }\n    const direction = cs.direction === \"rtl\" ? \"rtl\" : \"ltr\";\n    const scale = effectiveZoomFor?.(el) || 1;\n    const markerText = blinkLineClampEllipsisText(primaryFontHasEllipsis(el.ownerDocument, cs));\n    const measured = measureMarker(el.ownerDocument, cs, markerText, writingMode, scale);\n    const inlineStarts = clampLine.chars.map((char) => vertical ? char.top : char.left);\n    const inlineEnds = clampLine.chars.map((char) => vertical ? char.bottom : char.right);\n    const adjacentInlineStart = Math.min(...inlineStarts);\n    const adjacentInlineEnd = Math.max(...inlineEnds);\n    const inlineStart = blinkLineClampInlineStart({\n      direction,\n      adjacentInlineStart,\n      adjacentInlineEnd,\n      ellipsisAdvance: measured.inlineAdvance\n    });\n    const adjacent = direction === \"rtl\" ? clampLine.chars.reduce((best, char) => (vertical ? char.top : char.left) < (vertical ? best.top : best.left) ? char : best) : clampLine.chars.reduce((best, char) => (vertical ? char.bottom : char.right) > (vertical ? best.bottom : best.right) ? char : best);\n    const adjacentStyle = getComputedStyle(adjacent.owner);\n    const adjacentAscent = measureFontMetrics(adjacentStyle).ascent * (effectiveZoomFor?.(adjacent.owner) || 1);\n    const rootMetrics = measureFontMetrics(cs);\n    const rootAscent = rootMetrics.ascent * scale;\n    const baseline = vertical ? adjacent.left + adjacentAscent : adjacent.top + adjacentAscent;\n    const lineLeft = Math.min(...clampLine.chars.map((char) => char.left));\n    const lineRight = Math.max(...clampLine.chars.map((char) => char.right));\n    const lineTop = Math.min(...clampLine.chars.map((char) => char.top));\n    const lineBottom = Math.max(...clampLine.chars.map((char) => char.bottom));\n    const marker = vertical ? {\n      text: markerText,\n      x: lineLeft - vp.x,\n      y: inlineStart - vp.y,\n      width: lineRight - lineLeft,\n      height: measured.inlineAdvance,\n      yOffsets: [inlineStart - vp.y],\n      verticalWritingMode: writingMode,\n      verticalOrientations: [\"rotated\"],\n      verticalAdvances: [measured.inlineAdvance],\n      verticalNaturalWidths: [measured.width],\n      fontAscent: rootMetrics.ascent\n    } : {\n      text: markerText,\n      x: inlineStart - vp.x,\n      y: baseline - rootAscent - vp.y,\n      width: measured.inlineAdvance,\n      height: lineBottom - lineTop,\n      xOffsets: [inlineStart - vp.x],\n      fontAscent: rootMetrics.ascent\n    };\n    Object.assign(marker, {\n      generatedLineClampEllipsis: true,\n      shapedWidth: measured.inlineAdvance,\n      baseline: baseline - (vertical ? vp.x : vp.y),\n      inlineOffset: inlineStart - (vertical ? vp.y : vp.x),\n      color: normColor(cs.color),\n      fontFamily: cs.fontFamily,\n      fontSize: Number.parseFloat(cs.fontSize) || void 0,\n      fontWeight: cs.fontWeight,\n      fontStyle: cs.fontStyle,\n      fontVariant: cs.fontVariant\n    });\n    const probeId = `dm2417-${probeSequence++}`;\n    el.setAttribute(\"data-domotion-line-clamp-probe\", probeId);\n    marker.lineClampProbeId = probeId;\n    const context = { root: el, clampCount: activation.clampCount, writingMode, lines, marker };\n    contexts.set(el, context);\n    return context;\n  };\n  const nearestContext = (el) => {\n    for (let cursor = el; cursor != null; cursor = cursor.parentElement) {\n      const context = contexts.has(cursor) ? contexts.get(cursor) : analyzeRoot(cursor, getComputedStyle(cursor));\n      if (context != null) return context;\n    }\n    return null;\n  };\n  const segmentLineIndex = (segment, context) => {\n    const vertical = VERTICAL_WRITING_RE.test(context.writingMode);\n    const offset = vertical ? segment.x + vp.x : segment.y + vp.y;\n    let bestIndex = -1;\n    let bestDistance = Infinity;\n    for (let index = 0; index < context.lines.length; index++) {\n      const distance = Math.abs(context.lines[index].blockOffset - offset);\n      if (distance < bestDistance) {\n        bestDistance = distance;\n        bestIndex = index;\n      }\n    }\n    return bestDistance <= 1.5 ? bestIndex : -1;\n  };\n  const finalizeLineClampText = (el, cs, result) => {\n    analyzeRoot(el, cs);\n    const context = nearestContext(el);\n    if (context == null) return result;\n    const sourceSegments = result.textSegments || [];\n    const retained = sourceSegments.filter((segment) => {\n      if (segment.generatedLineClampEllipsis) return true;\n      const index = segmentLineIndex(segment, context);\n      return index < 0 || blinkLineClampLineIsVisible(index, context.clampCount);\n    });\n    if (el === context.root && blinkShouldEmitLineClampEllipsis({\n      active: true,\n      clampCount: context.clampCount,\n      totalLineCount: context.lines.length\n    })) retained.push(context.marker);\n    return {\n      ...result,\n      textSegments: retained,\n      lineClampTextFragments: true\n    };\n  };\n  return { finalizeLineClampText };\n};\n\n// src/capture/script/cross-origin.ts\nfunction parseCrossOriginAllowlist(value) {\n  if (value == null) return null;\n  const trimmed = value.trim();\n  if (trimmed === \"\") return null;\n  if (trimmed === \"*\") return \"*\";\n  const entries = [];\n  for (const raw of trimmed.split(\",\")) {\n    const part = raw.trim();\n    if (part === \"\") continue;\n    if (part === \"*\") return \"*\";\n    const colon = part.lastIndexOf(\":\");\n    if (colon > 0 && /^[0-9]+$/.test(part.slice(colon + 1))) {\n      entries.push({ host: part.slice(0, colon).toLowerCase(), port: part.slice(colon + 1) });\n    } else {\n      entries.push({ host: part.toLowerCase(), port: null });\n    }\n  }\n  return entries.length > 0 ? entries : null;\n}\nfunction frameHostAllowed(frameUrl, allow) {\n  if (allow == null) return false;\n  if (allow === \"*\") return true;\n  let host;\n  let port;\n  try {\n    const u = new URL(frameUrl);\n    host = u.hostname.toLowerCase();\n    port = u.port;\n    if (port === \"\") {\n      if (u.protocol === \"https:\") port = \"443\";\n      else if (u.protocol === \"http:\") port = \"80\";\n    }\n  } catch {\n    return false;\n  }\n  for (const entry of allow) {\n    if (entry.host !== host) continue;\n    if (entry.port == null) return true;\n    if (entry.port === port) return true;\n  }\n  return false;\n}\n\n// src/capture/projective-owner.ts\nfunction isAncestor(nodes, ancestor, descendant) {\n  let cursor = descendant;\n  while (cursor != null) {\n    if (cursor === ancestor) return true;\n    cursor = nodes[cursor]?.parent ?? null;\n  }\n  return false;\n}\nfunction selectProjectiveRasterOwnerIndexes(nodes) {\n  const candidates = /* @__PURE__ */ new Set();\n  for (let index = 0; index < nodes.length; index++) {\n    const node = nodes[index];\n    if (node == null || !node.nonAffine) continue;\n    let owner = index;\n    let parent = node.parent;\n    while (parent != null && nodes[parent]?.influenced === true) {\n      owner = parent;\n      parent = nodes[parent]?.parent ?? null;\n    }\n    const inlineSvgRoot = node.inlineSvgRoot;\n    if (inlineSvgRoot != null && isAncestor(nodes, inlineSvgRoot, owner)) {\n      owner = inlineSvgRoot;\n    }\n    candidates.add(owner);\n  }\n  return [...candidates].filter((candidate) => ![...candidates].some(\n    (other) => other !== candidate && isAncestor(nodes, other, candidate)\n  )).sort((a, b) => a - b);\n}\n\n// src/capture/effective-appearance.ts\nvar BACKGROUND_LONGHANDS = [\n  \"background-attachment\",\n  \"background-clip\",\n  \"background-color\",\n  \"background-image\",\n  \"background-origin\",\n  \"background-position-x\",\n  \"background-position-y\",\n  \"background-repeat\",\n  \"background-size\"\n];\nvar PHYSICAL_BORDER_LONGHANDS = [\n  \"border-top-color\",\n  \"border-right-color\",\n  \"border-bottom-color\",\n  \"border-left-color\",\n  \"border-top-style\",\n  \"border-right-style\",\n  \"border-bottom-style\",\n  \"border-left-style\",\n  \"border-top-width\",\n  \"border-right-width\",\n  \"border-bottom-width\",\n  \"border-left-width\",\n  \"border-top-left-radius\",\n  \"border-top-right-radius\",\n  \"border-bottom-right-radius\",\n  \"border-bottom-left-radius\",\n  \"border-image-source\",\n  \"border-image-slice\",\n  \"border-image-width\",\n  \"border-image-outset\",\n  \"border-image-repeat\"\n];\nvar BACKGROUND_SET = new Set(BACKGROUND_LONGHANDS);\nvar BORDER_SET = new Set(PHYSICAL_BORDER_LONGHANDS);\nfunction normalizedAppearance(value) {\n  const appearance = (value ?? \"auto\").trim().toLowerCase();\n  return appearance === \"\" ? \"auto\" : appearance;\n}\nfunction autoAppearanceForControl(control) {\n  const tag = control.tag.toLowerCase();\n  if (tag === \"button\") return \"button\";\n  if (tag === \"progress\") return \"progress-bar\";\n  if (tag === \"meter\") return \"meter\";\n  if (tag === \"textarea\") return \"textarea\";\n  if (tag === \"select\") {\n    const size = Number.isFinite(control.selectSize) ? Math.max(0, control.selectSize ?? 0) : 0;\n    const usesMenuList = control.multiple ? Boolean(control.selectHasSizeAttribute) && size === 1 : size <= 1;\n    return usesMenuList ? \"menulist\" : \"listbox\";\n  }\n  if (tag !== \"input\") return \"none\";\n  switch ((control.type ?? \"text\").toLowerCase()) {\n    case \"button\":\n    case \"reset\":\n    case \"submit\":\n      return \"push-button\";\n    case \"color\":\n      return \"square-button\";\n    case \"checkbox\":\n      return \"checkbox\";\n    case \"radio\":\n      return \"radio\";\n    case \"range\":\n      return \"slider-horizontal\";\n    case \"search\":\n      return \"searchfield\";\n    case \"file\":\n    case \"hidden\":\n    case \"image\":\n      return \"none\";\n    default:\n      return \"textfield\";\n  }\n}\nfunction appearanceNeedsAuthorStyleFacts(appearance) {\n  return (/* @__PURE__ */ new Set([\n    \"button\",\n    \"push-button\",\n    \"square-button\",\n    \"progress-bar\",\n    \"meter\",\n    \"menulist\",\n    \"searchfield\",\n    \"textarea\",\n    \"textfield\"\n  ])).has(appearance);\n}\nfunction elementTypeAdjustedAppearance(specified, control) {\n  const auto = autoAppearanceForControl(control);\n  if (specified === auto) return specified;\n  switch (specified) {\n    case \"none\":\n    case \"base\":\n    case \"base-select\":\n      return specified;\n    case \"auto\":\n    case \"checkbox\":\n    case \"radio\":\n    case \"push-button\":\n    case \"square-button\":\n    case \"inner-spin-button\":\n    case \"listbox\":\n    case \"menulist\":\n    case \"meter\":\n    case \"progress-bar\":\n    case \"slider-horizontal\":\n    case \"slider-thumb-horizontal\":\n    case \"searchfield\":\n    case \"searchfield-cancel-button\":\n    case \"textarea\":\n      return auto;\n    case \"button\":\n      return auto === \"push-button\" || auto === \"square-button\" ? specified : auto;\n    case \"menulist-button\":\n      return auto === \"menulist\" ? specified : auto;\n    case \"slider-vertical\":\n      return auto === \"slider-horizontal\" ? specified : auto;\n    case \"slider-thumb-vertical\":\n      return auto === \"slider-thumb-horizontal\" ? specified : auto;\n    case \"textfield\":\n      return control.tag.toLowerCase() === \"input\" && (control.type ?? \"text\").toLowerCase() === \"search\" ? specified : auto;\n    default:\n      return specified;\n  }\n}\nfunction effectiveAppearanceForControl(specifiedAppearance, control, facts, hasResolvedBoxShadow) {\n  const specified = normalizedAppearance(specifiedAppearance);\n  const appearance = elementTypeAdjustedAppearance(specified, control);\n  if (appearance === \"none\" || appearance === \"base\" || appearance === \"base-select\") {\n    return appearance;\n  }\n  if (!appearanceNeedsAuthorStyleFacts(appearance)) return appearance;\n  if (facts == null || !facts.available) return null;\n  const authorBox = facts.hasAuthorBackground || facts.hasAuthorBorder;\n  switch (appearance) {\n    case \"button\":\n    case \"push-button\":\n    case \"square-button\":\n    case \"progress-bar\":\n    case \"meter\":\n      return authorBox ? \"none\" : appearance;\n    case \"menulist\":\n      return authorBox || hasResolvedBoxShadow ? \"menulist-button\" : appearance;\n    case \"searchfield\":\n    case \"textarea\":\n    case \"textfield\":\n      return authorBox || hasResolvedBoxShadow ? \"none\" : appearance;\n    default:\n      return appearance;\n  }\n}\nfunction isWholeHostNativeAppearance(appearance) {\n  return (/* @__PURE__ */ new Set([\n    \"button\",\n    \"push-button\",\n    \"square-button\",\n    \"progress-bar\",\n    \"meter\",\n    \"menulist\",\n    \"searchfield\",\n    \"textarea\",\n    \"textfield\",\n    \"checkbox\",\n    \"radio\",\n    \"slider-horizontal\",\n    \"slider-vertical\"\n  ])).has(appearance);\n}\n\n// src/capture/native-control-decoration.ts\nvar TEMPORAL_INPUT_TYPES = /* @__PURE__ */ new Set([\n  \"date\",\n  \"datetime-local\",\n  \"month\",\n  \"time\",\n  \"week\"\n]);\nfunction nativeControlDecorationKinds(control, effectiveAppearance, fileSelectorButtonAppearance) {\n  const tag = control.tag.toLowerCase();\n  const type = (control.type ?? \"text\").toLowerCase();\n  if (tag === \"input\" && type === \"file\") {\n    if (fileSelectorButtonAppearance === \"none\" || fileSelectorButtonAppearance === \"base\" || fileSelectorButtonAppearance === \"base-select\") return [];\n    return [\"file-selector-button\"];\n  }\n  if (effectiveAppearance == null || isWholeHostNativeAppearance(effectiveAppearance)) return [];\n  if (effectiveAppearance === \"base\" || effectiveAppearance === \"base-select\") return [];\n  if (tag === \"select\") {\n    return effectiveAppearance === \"menulist-button\" ? [\"menulist-button-arrow\"] : [];\n  }\n  if (tag !== \"input\") return [];\n  if (type === \"number\") return [\"inner-spin-button\"];\n  if (type === \"search\") return [\"search-cancel-button\"];\n  if (TEMPORAL_INPUT_TYPES.has(type)) {\n    return [\"calendar-picker-indicator\"];\n  }\n  return [];\n}\n\n// src/capture/script/index.ts\nvar captureDocumentTree = (args, colorNorm) => {\n  const sel = args.sel;\n  const vp = args.vp;\n  const _crossOriginAllow = parseCrossOriginAllowlist(args.cof);\n  const _svgReferenceScopes = /* @__PURE__ */ new WeakMap();\n  let _nextSvgReferenceScope = 0;\n  function _svgReferenceScope(el) {\n    var root2 = el.getRootNode ? el.getRootNode() : el.ownerDocument;\n    var existing = _svgReferenceScopes.get(root2);\n    if (existing != null) return existing;\n    var allocated = _nextSvgReferenceScope++;\n    _svgReferenceScopes.set(root2, allocated);\n    return allocated;\n  }\n  let _backdropRasterSeq = 0;\n  function _textPaintRegistryFor(el) {\n    if (typeof args.tgk !== \"string\" || args.tgk === \"\") return void 0;\n    var view = el.ownerDocument != null ? el.ownerDocument.defaultView : void 0;\n    return view != null ? view[args.tgk] : void 0;\n  }\n  function _textPaintElementIndexFor(el) {\n    var registry = _textPaintRegistryFor(el);\n    return registry != null && registry.indexByElement != null ? registry.indexByElement.get(el) : void 0;\n  }\n  function _textPaintFactFor(el) {\n    var registry = _textPaintRegistryFor(el);\n    var index = _textPaintElementIndexFor(el);\n    return registry != null && index != null && registry.factsByElement != null ? registry.factsByElement[index] : void 0;\n  }\n  function _textPaintSourceKeyFor(el) {\n    var registry = _textPaintRegistryFor(el);\n    var index = _textPaintElementIndexFor(el);\n    return registry != null && index != null ? registry.token + \":\" + index : void 0;\n  }\n  function _pseudoFragmentFactsFor(el) {\n    if (typeof args.pgk !== \"string\" || args.pgk === \"\") return void 0;\n    var view = el.ownerDocument != null ? el.ownerDocument.defaultView : void 0;\n    var registry = view != null ? view[args.pgk] : void 0;\n    var index = registry != null && registry.indexByElement != null ? registry.indexByElement.get(el) : void 0;\n    return registry != null && index != null && registry.factsByElement != null ? registry.factsByElement[index] : void 0;\n  }\n  const { normColor, normGradientColors } = colorNorm;\n  const { rasterCandidates, textNeedsRaster } = createEmojiDetect();\n  const { markGetsDottedCircle } = createDottedCircleDetect();\n  const { measureFontMetrics: _measureFontMetrics, substituteAliasedFamilies: _substituteAliasedFamilies } = createFontMetrics();\n  const { resolvePlaceholderShownBg: _resolvePlaceholderShownBg } = createPlaceholderShown();\n  const { familyIsUADefault: _familyIsUADefault } = createFontFamilyDefault();\n  const _fontFeatureValuesByDocument = /* @__PURE__ */ new WeakMap();\n  const _fontFeatureValuesFor = (doc) => {\n    let tables = _fontFeatureValuesByDocument.get(doc);\n    if (tables == null) {\n      tables = collectFontFeatureValues(doc);\n      _fontFeatureValuesByDocument.set(doc, tables);\n    }\n    return tables;\n  };\n  const { resolvePseudo: _resolvePseudo, resolveCornerRadius: _resolveCornerRadius } = createPseudoRules(args.ps, args.pk);\n  const { warn, shortSelector, warnings: _warnings } = createWarnings();\n  const _counterStyles = {};\n  const _runCounterStylePrewalk = createCounterStylePrewalk({ counterStyles: _counterStyles });\n  const { resolveCounterStyle, resolveCounterValue, isCustomCounterStyle } = createCounterStyleResolver({ counterStyles: _counterStyles });\n  const { captureListsCounters } = createListsCountersHandler({ normColor, resolveCounterStyle, isCustomCounterStyle, measureFontMetrics: _measureFontMetrics });\n  const { handleReplacedElement } = createReplacedElementsHandler({ vp });\n  const { discoverMasks, computeMaskIntrinsic, discoverClipPaths, discoverFilters, maskDefs: _maskDefs, maskRasters: _maskRasters, clipPathDefs: _clipPathDefs, filterDefs: _filterDefs } = createMasksClipsHandler({ vp, warn });\n  const { captureFormControls } = createFormControlsHandler({ normColor, resolvePseudo: _resolvePseudo });\n  const { wrapWithFrozenTransform, threadFrozenTransform } = createTransformsHandler();\n  const { captureBordersBackgrounds, isTableCellHiddenByEmptyCells } = createBordersBackgroundsHandler({\n    normColor,\n    normGradientColors,\n    resolvePlaceholderShownBg: _resolvePlaceholderShownBg,\n    resolveCornerRadius: _resolveCornerRadius,\n    effectiveZoomFor: (el) => _effectiveZoomFor(el),\n    warn,\n    shortSelector,\n    vp\n  });\n  const { captureBackgroundAttachment } = createBackgroundAttachmentHandler({\n    vp,\n    transformRelatedBoxFor: (el) => _transformRelatedBox.get(el),\n    effectiveZoomFor: (el) => _effectiveZoomFor(el),\n    scrollbarPropertyKey: args.sk\n  });\n  const { capturePseudoContent } = createPseudoContentHandler({\n    vp,\n    normColor,\n    measureFontMetrics: _measureFontMetrics,\n    textNeedsRaster,\n    resolveCounterValue,\n    isCustomCounterStyle,\n    composeEffectiveTransform,\n    effectiveZoomFor: (el) => _effectiveZoomFor(el),\n    physicalComputedCssPixelTerms: physicalComputedTileSize\n  });\n  const { captureInputValue } = createInputValueHandler({ vp, normColor, measureFontMetrics: _measureFontMetrics });\n  const { finalizeLineClampText } = createLineClampHandler({\n    vp,\n    measureFontMetrics: _measureFontMetrics,\n    normColor,\n    effectiveZoomFor: (el) => _effectiveZoomFor(el)\n  });\n  const { captureTextSegments } = createTextSegmentsHandler({\n    vp,\n    measureFontMetrics: _measureFontMetrics,\n    rasterCandidates,\n    normColor,\n    markGetsDottedCircle,\n    finalizeLineClampText\n  });\n  const { injectPseudoSegments } = createPseudoInjectHandler();\n  const { captureResizeHandle } = createResizeHandleHandler({\n    resolvePseudo: _resolvePseudo,\n    normColor,\n    effectiveZoomFor: (el) => _effectiveZoomFor(el),\n    themeThickness: args.rt,\n    scaleFromDIP: args.rs,\n    vp\n  });\n  const capture = (el) => {\n    const styleWindow = el.ownerDocument?.defaultView ?? window;\n    const cs = styleWindow.getComputedStyle(el);\n    return wrapWithFrozenTransform(el, cs, captureInner);\n  };\n  const captureInner = (el, cs, frozenTransform, frozenTransformOrigin) => {\n    const rect = el.getBoundingClientRect();\n    const _textPaintFact = _textPaintFactFor(el);\n    const _pseudoFragmentFacts = _pseudoFragmentFactsFor(el);\n    let projectiveTransform;\n    let projectiveHidden;\n    let transformSubtreeRaster;\n    const _quad = _projectedQuads.get(el);\n    if (_quad != null && rect.width > 0 && rect.height > 0) {\n      const _abs = _homographyForRect(rect, _quad);\n      if (_abs != null) {\n        const _parentAbs = el.parentElement != null ? _projectiveAbsH.get(el.parentElement) : void 0;\n        const _parentInv = _parentAbs != null ? _invertH(_parentAbs) : null;\n        projectiveTransform = _parentInv != null ? _mulH(_parentInv, _abs) : _abs;\n        _projectiveAbsH.set(el, _abs);\n        const _area = (_quad[1].x - _quad[0].x) * (_quad[3].y - _quad[0].y) - (_quad[1].y - _quad[0].y) * (_quad[3].x - _quad[0].x);\n        projectiveHidden = cs.backfaceVisibility === \"hidden\" && _area < 0;\n      }\n    }\n    const _makeTransformSubtreeRaster = () => {\n      let _left = rect.left, _top = rect.top, _right = rect.right, _bottom = rect.bottom;\n      const _subs = el.getElementsByTagName(\"*\");\n      for (let _ri = 0; _ri < _subs.length; _ri++) {\n        const _rr = _subs[_ri].getBoundingClientRect();\n        if (_rr.width <= 0 || _rr.height <= 0) continue;\n        _left = Math.min(_left, _rr.left);\n        _top = Math.min(_top, _rr.top);\n        _right = Math.max(_right, _rr.right);\n        _bottom = Math.max(_bottom, _rr.bottom);\n      }\n      const _rx = Math.max(vp.x, _left), _ry = Math.max(vp.y, _top);\n      const _rright = Math.min(vp.x + vp.width, _right), _rbottom = Math.min(vp.y + vp.height, _bottom);\n      if (_rright > _rx && _rbottom > _ry) {\n        return {\n          x: _rx - vp.x,\n          y: _ry - vp.y,\n          width: _rright - _rx,\n          height: _rbottom - _ry,\n          sourceNodeIndex: _projectiveNodeIndex.get(el)\n        };\n      }\n      return { x: 0, y: 0, width: 0, height: 0, sourceNodeIndex: _projectiveNodeIndex.get(el) };\n    };\n    if (_nonAffineProjectiveRoots.has(el)) {\n      transformSubtreeRaster = _makeTransformSubtreeRaster();\n    }\n    if (_textPaintFact != null && _textPaintFact.surfaceReason != null && transformSubtreeRaster == null) {\n      transformSubtreeRaster = _makeTransformSubtreeRaster();\n      warn(shortSelector(el), \"<transform>\", \"Chromium text-fragment geometry unavailable; retained one outer raster surface: \" + _textPaintFact.surfaceReason);\n    }\n    const outsideViewport = isOutsideCaptureViewport(rect, vp);\n    if (outsideViewport && !_fixedAncestors.has(el) && !_transformInfluenced.has(el) && !_animInfluenced.has(el)) return null;\n    const _earlyTag = el.tagName.toLowerCase();\n    const bordersOnlyCell = (_earlyTag === \"td\" || _earlyTag === \"th\") && (cs.visibility === \"hidden\" || cs.visibility === \"collapse\") && cs.borderCollapse === \"collapse\";\n    if (cs.display === \"none\") return null;\n    if ((cs.visibility === \"hidden\" || cs.visibility === \"collapse\") && !bordersOnlyCell) return null;\n    const _contentVisHidden = cs.contentVisibility === \"hidden\";\n    const _clip = cs.clip || \"\";\n    if (_clip !== \"auto\" && _clip !== \"\" && _clip !== \"normal\") {\n      const _cm = _clip.match(/rect\\(\\s*([^,\\s]+)[ ,]+([^,\\s]+)[ ,]+([^,\\s]+)[ ,]+([^)\\s]+)\\s*\\)/);\n      if (_cm != null && parseFloat(_cm[1]) === 0 && parseFloat(_cm[2]) === 0 && parseFloat(_cm[3]) === 0 && parseFloat(_cm[4]) === 0) {\n        return null;\n      }\n    }\n    const _cp = cs.clipPath || \"\";\n    if (_cp.indexOf(\"inset(\") === 0) {\n      const _ipm = _cp.match(/inset\\(\\s*([0-9.]+)\\s*%/);\n      if (_ipm != null && parseFloat(_ipm[1]) >= 50) return null;\n    }\n    if (rect.width <= 1 && rect.height <= 1 && (cs.overflow === \"hidden\" || cs.overflowX === \"hidden\" || cs.overflowY === \"hidden\") && (cs.position === \"absolute\" || cs.position === \"fixed\")) {\n      return null;\n    }\n    const zeroSized = rect.width === 0 || rect.height === 0;\n    const _hasAnim = el.dataset != null && el.dataset.domotionAnim != null && el.dataset.domotionAnim !== \"\";\n    const _inkTextZeroWidth = rect.width === 0 && rect.height > 0 && el.textContent != null && el.textContent.trim().length > 0;\n    const _keepImageFallbackState = el.tagName != null && el.tagName.toLowerCase() === \"img\";\n    if (zeroSized && el.children.length === 0 && !_hasAnim && !_inkTextZeroWidth && !_keepImageFallbackState) return null;\n    const tag = el.tagName.toLowerCase();\n    const sel2 = shortSelector(el);\n    const _nativeControlTag = tag === \"input\" || tag === \"select\" || tag === \"textarea\" || tag === \"button\" || tag === \"progress\" || tag === \"meter\";\n    const _specifiedAppearance = cs.webkitAppearance || cs.appearance || \"auto\";\n    const _autoAppearanceDescriptor = {\n      tag,\n      type: tag === \"input\" ? el.type || \"text\" : void 0,\n      multiple: tag === \"select\" ? !!el.multiple : void 0,\n      selectSize: tag === \"select\" ? +el.size : void 0,\n      selectHasSizeAttribute: tag === \"select\" ? el.hasAttribute(\"size\") : void 0\n    };\n    const _appearanceFacts = typeof args.eak === \"string\" && args.eak !== \"\" ? el[args.eak] : void 0;\n    const _effectiveAppearance = _nativeControlTag ? effectiveAppearanceForControl(\n      _specifiedAppearance,\n      _autoAppearanceDescriptor,\n      _appearanceFacts,\n      cs.boxShadow != null && cs.boxShadow !== \"\" && cs.boxShadow !== \"none\"\n    ) : \"none\";\n    const _nativeDecorationRefs = typeof args.ndk === \"string\" && args.ndk !== \"\" && Array.isArray(el[args.ndk]) ? el[args.ndk] : [];\n    let _fileSelectorButtonAppearance;\n    for (let _fri = 0; _fri < _nativeDecorationRefs.length; _fri++) {\n      const _fileRef = _nativeDecorationRefs[_fri];\n      if (_fileRef == null || _fileRef.kind !== \"file-selector-button\") continue;\n      _fileSelectorButtonAppearance = _fileRef.ownership == null ? null : _fileRef.ownership.effectiveAppearance;\n      break;\n    }\n    const _nativeDecorationKinds = _nativeControlTag ? nativeControlDecorationKinds(\n      _autoAppearanceDescriptor,\n      _effectiveAppearance,\n      tag === \"input\" && el.type === \"file\" ? _fileSelectorButtonAppearance : void 0\n    ) : [];\n    const _nativeDecorationParts = [];\n    const _missingNativeDecorationKinds = [];\n    let _nativeDecorationUnavailableReason;\n    for (let _dki = 0; _dki < _nativeDecorationKinds.length; _dki++) {\n      const _kind = _nativeDecorationKinds[_dki];\n      if (_kind === \"menulist-button-arrow\") continue;\n      let _found = false;\n      for (let _dri = 0; _dri < _nativeDecorationRefs.length; _dri++) {\n        const _entry = _nativeDecorationRefs[_dri];\n        if (_entry == null || _entry.kind !== _kind || !(_entry.node instanceof Element)) continue;\n        _found = true;\n        if (_kind === \"file-selector-button\" && (_entry.ownership == null || _entry.ownership.effectiveAppearance == null)) {\n          _nativeDecorationUnavailableReason = _entry.ownership && _entry.ownership.reason ? _entry.ownership.reason : \"file-selector child EffectiveAppearance unavailable\";\n        }\n        const _part = _entry.node;\n        const _partStyle = getComputedStyle(_part);\n        const _partRect = _part.getBoundingClientRect();\n        const _partOpacity = parseFloat(_partStyle.opacity);\n        if (_part.isConnected && _partStyle.display !== \"none\" && _partStyle.visibility === \"visible\" && (!isFinite(_partOpacity) || _partOpacity > 0) && _partRect.width > 0 && _partRect.height > 0) {\n          _nativeDecorationParts.push({\n            kind: _kind,\n            index: _dri,\n            x: _partRect.left,\n            y: _partRect.top,\n            width: _partRect.width,\n            height: _partRect.height\n          });\n        }\n      }\n      if (!_found) _missingNativeDecorationKinds.push(_kind);\n    }\n    if (_nativeDecorationKinds.indexOf(\"file-selector-button\") >= 0) {\n      let _fileStatusFound = false;\n      for (let _dri = 0; _dri < _nativeDecorationRefs.length; _dri++) {\n        const _entry = _nativeDecorationRefs[_dri];\n        if (_entry == null || _entry.kind !== \"file-selector-status\" || !(_entry.node instanceof Element)) continue;\n        _fileStatusFound = true;\n        const _statusRect = _entry.node.getBoundingClientRect();\n        if (_entry.node.isConnected && _statusRect.width >= 0 && _statusRect.height >= 0) {\n          _nativeDecorationParts.push({\n            kind: \"file-selector-status\",\n            index: _dri,\n            x: _statusRect.left,\n            y: _statusRect.top,\n            width: _statusRect.width,\n            height: _statusRect.height\n          });\n        }\n      }\n      if (!_fileStatusFound) _missingNativeDecorationKinds.push(\"file-selector-status\");\n    }\n    if (_nativeDecorationKinds.indexOf(\"menulist-button-arrow\") >= 0) {\n      let _selectInnerFound = false;\n      for (let _dri = 0; _dri < _nativeDecorationRefs.length; _dri++) {\n        const _entry = _nativeDecorationRefs[_dri];\n        if (_entry == null || _entry.kind !== \"select-inner\" || !(_entry.node instanceof Element)) continue;\n        _selectInnerFound = true;\n        const _partRect = _entry.node.getBoundingClientRect();\n        if (_entry.node.isConnected && _partRect.width >= 0 && _partRect.height >= 0) {\n          _nativeDecorationParts.push({\n            kind: \"select-inner\",\n            index: _dri,\n            x: _partRect.left,\n            y: _partRect.top,\n            width: _partRect.width,\n            height: _partRect.height\n          });\n        }\n      }\n      if (!_selectInnerFound) _missingNativeDecorationKinds.push(\"select-inner\");\n    }\n    let _fileSelectorCapture;\n    if (tag === \"input\" && el.type === \"file\") {\n      let _buttonNode;\n      let _statusNode;\n      for (let _fri = 0; _fri < _nativeDecorationRefs.length; _fri++) {\n        const _entry = _nativeDecorationRefs[_fri];\n        if (_entry == null || !(_entry.node instanceof Element)) continue;\n        if (_entry.kind === \"file-selector-button\") _buttonNode = _entry.node;\n        else if (_entry.kind === \"file-selector-status\") _statusNode = _entry.node;\n      }\n      const _paintScale = _effectiveZoomFor(el);\n      const _buttonRect = _buttonNode && _buttonNode.getBoundingClientRect();\n      const _buttonStyle = _buttonNode && getComputedStyle(_buttonNode);\n      const _buttonMetrics = _buttonStyle && _measureFontMetrics(_buttonStyle);\n      let _buttonTextWidth = 0;\n      if (_buttonNode && _buttonStyle) {\n        try {\n          const _buttonCanvas = document.createElement(\"canvas\");\n          const _buttonCtx = _buttonCanvas.getContext(\"2d\");\n          if (_buttonCtx) {\n            _buttonCtx.font = _buttonStyle.font;\n            _buttonTextWidth = _buttonCtx.measureText(\n              _buttonNode.value || _buttonNode.getAttribute(\"value\") || \"\"\n            ).width * _paintScale;\n          }\n        } catch (_e) {\n        }\n      }\n      const _statusRect = _statusNode && _statusNode.getBoundingClientRect();\n      const _statusStyle = _statusNode && getComputedStyle(_statusNode);\n      const _statusText = _statusNode && captureTextSegments(_statusNode, _statusStyle);\n      if (_statusText && Array.isArray(_statusText.textSegments)) {\n        for (let _fsi = 0; _fsi < _statusText.textSegments.length; _fsi++) {\n          const _seg = _statusText.textSegments[_fsi];\n          if (_seg.fontAscent != null) _seg.fontAscent *= _paintScale;\n          if (_seg.fontDescent != null) _seg.fontDescent *= _paintScale;\n          if (_seg.fontSize != null) _seg.fontSize *= _paintScale;\n          if (Array.isArray(_seg.verticalNaturalWidths)) {\n            _seg.verticalNaturalWidths = _seg.verticalNaturalWidths.map((_width) => _width * _paintScale);\n          }\n        }\n      }\n      _fileSelectorCapture = {\n        fileSelectorButton: _buttonRect && _buttonStyle && _buttonMetrics ? {\n          x: _buttonRect.left - vp.x,\n          y: _buttonRect.top - vp.y,\n          width: _buttonRect.width,\n          height: _buttonRect.height,\n          text: _buttonNode.value || _buttonNode.getAttribute(\"value\") || \"\",\n          textWidth: _buttonTextWidth,\n          fontSize: (parseFloat(_buttonStyle.fontSize) || 0) * _paintScale,\n          fontFamily: _buttonStyle.fontFamily,\n          fontWeight: _buttonStyle.fontWeight,\n          fontStyle: _buttonStyle.fontStyle,\n          fontAscent: _buttonMetrics.ascent * _paintScale,\n          fontDescent: _buttonMetrics.descent * _paintScale,\n          color: normColor(_buttonStyle.color),\n          boxShadow: _buttonStyle.boxShadow,\n          borderRadius: _buttonStyle.borderRadius,\n          writingMode: _buttonStyle.writingMode,\n          textOrientation: _buttonStyle.textOrientation,\n          direction: _buttonStyle.direction\n        } : void 0,\n        fileSelectorStatus: _statusRect && _statusStyle && _statusText ? {\n          x: _statusRect.left - vp.x,\n          y: _statusRect.top - vp.y,\n          width: _statusRect.width,\n          height: _statusRect.height,\n          text: _statusText.text || _statusNode.textContent || \"\",\n          textSegments: _statusText.textSegments,\n          fontSize: (parseFloat(_statusStyle.fontSize) || 0) * _paintScale,\n          fontFamily: _statusStyle.fontFamily,\n          fontWeight: _statusStyle.fontWeight,\n          fontStyle: _statusStyle.fontStyle,\n          fontAscent: (_statusText.fontAscent || 0) * _paintScale,\n          fontDescent: (_statusText.fontDescent || 0) * _paintScale,\n          color: normColor(_statusStyle.color),\n          writingMode: _statusStyle.writingMode,\n          textOrientation: _statusStyle.textOrientation,\n          direction: _statusStyle.direction\n        } : void 0\n      };\n    }\n    if (_nativeControlTag && _effectiveAppearance == null) {\n      const _autoAppearance = _specifiedAppearance === \"auto\" ? autoAppearanceForControl(_autoAppearanceDescriptor) : _specifiedAppearance;\n      if (appearanceNeedsAuthorStyleFacts(_autoAppearance)) {\n        const _reason = _appearanceFacts && _appearanceFacts.reason ? _appearanceFacts.reason : args.ear || \"no correlated Chromium matched-style facts\";\n        warn(\n          sel2,\n          \"effective-appearance-cascade\",\n          \"author background/border origin unavailable (\" + _reason + \"); preserving a conservative Chromium host raster\"\n        );\n      }\n    }\n    if (cs.transform && cs.transform.startsWith(\"matrix3d\")) {\n      warn(sel2, \"transform-3d\", \"static 3D plane projected to vector SVG from Chromium-measured corners\");\n    }\n    if (cs.backdropFilter && cs.backdropFilter !== \"none\") {\n      warn(sel2, \"backdrop-filter\", \"approximated via a frosted-glass background fallback for the transparent-backdrop case (doc 19); no true backdrop blur\");\n    }\n    if (cs.position === \"fixed\" || cs.position === \"sticky\") {\n      warn(sel2, \"position:\" + cs.position, \"rendered as a static snapshot at t=0; scroll-following behavior is not animated\");\n    }\n    discoverMasks(el, cs, sel2);\n    discoverClipPaths(el, cs, sel2);\n    const urlFilterRasterToken = discoverFilters(el, cs, sel2);\n    if (cs.borderImageSource && cs.borderImageSource !== \"none\") {\n      warn(sel2, \"border-image\", \"9-slice composition pending (SK-466); border-image-source ignored\");\n    }\n    if (tag === \"canvas\" || tag === \"video\" || tag === \"object\" || tag === \"embed\") {\n      warn(sel2, \"<\" + tag + \">\", \"element type is not rendered by domotion\");\n    } else if (tag === \"iframe\") {\n      if (_iframeIsRecursable(el) == null) {\n        warn(sel2, \"<iframe>\", \"cross-origin / inaccessible frame rendered as a static raster snapshot; same-origin frames recurse to native SVG\");\n      }\n    }\n    if (cs.textAlign === \"justify\") {\n      warn(sel2, \"text-align:justify\", \"path-mode renderer does not space-stretch justified text\");\n    }\n    let text = \"\";\n    let imageSrc = void 0;\n    let svgContent = void 0;\n    let textTop = 0;\n    let textLeft = 0;\n    let textHeight = 0;\n    let textWidth = 0;\n    let fontAscent = 0;\n    let fontDescent = 0;\n    let inputXOffsets;\n    let placeholderColor;\n    let placeholderFontStyle;\n    let placeholderFontWeight;\n    let lineClampTextFragments = false;\n    const textSegments = [];\n    const _pcResult = _contentVisHidden || Array.isArray(_pseudoFragmentFacts) ? { pseudoSegments: [], pseudoBoxes: [] } : capturePseudoContent(el, cs, rect, _counterSnapshot);\n    const pseudoSegments = _pcResult.pseudoSegments;\n    const pseudoBoxes = _pcResult.pseudoBoxes;\n    const textIsHiddenFallback = tag === \"meter\" || tag === \"progress\" || tag === \"datalist\" || tag === \"option\" || tag === \"optgroup\";\n    if (tag !== \"svg\" && tag !== \"img\" && !textIsHiddenFallback && !_contentVisHidden) {\n      const _iv = captureInputValue(el, cs, tag, rect);\n      var isPlaceholderCapture = false;\n      if (_iv.applied) {\n        text = _iv.text;\n        textLeft = _iv.textLeft;\n        textTop = _iv.textTop;\n        textHeight = _iv.textHeight;\n        textWidth = _iv.textWidth;\n        fontAscent = _iv.fontAscent;\n        fontDescent = _iv.fontDescent;\n        inputXOffsets = _iv.inputXOffsets;\n        if (_iv.textSegments != null) for (const seg of _iv.textSegments) textSegments.push(seg);\n        isPlaceholderCapture = _iv.isPlaceholderCapture;\n        placeholderColor = _iv.placeholderColor;\n        placeholderFontStyle = _iv.placeholderFontStyle;\n        placeholderFontWeight = _iv.placeholderFontWeight;\n      } else {\n        const _ts = captureTextSegments(el, cs);\n        text = _ts.text;\n        lineClampTextFragments = _ts.lineClampTextFragments === true;\n        for (const seg of _ts.textSegments) textSegments.push(seg);\n        if (_ts.textLeft != null) {\n          textLeft = _ts.textLeft;\n          textTop = _ts.textTop;\n          textWidth = _ts.textWidth;\n          textHeight = _ts.textHeight;\n          fontAscent = _ts.fontAscent;\n          fontDescent = _ts.fontDescent;\n        }\n      }\n    }\n    const _pi = Array.isArray(_pseudoFragmentFacts) ? { pseudoImages: [], text, textLeft, textTop, textWidth, textHeight, fontAscent } : injectPseudoSegments(el, pseudoSegments, textSegments, {\n      text,\n      textLeft,\n      textTop,\n      textWidth,\n      textHeight,\n      fontAscent\n    });\n    const pseudoImages = _pi.pseudoImages;\n    text = _pi.text;\n    textLeft = _pi.textLeft;\n    textTop = _pi.textTop;\n    textWidth = _pi.textWidth;\n    textHeight = _pi.textHeight;\n    fontAscent = _pi.fontAscent;\n    var _segmentZoom = _effectiveZoomFor(el);\n    for (const _seg of textSegments) {\n      var _segLogicalSize = _seg.fontSize ?? parseFloat(cs.fontSize);\n      if (!isFinite(_segLogicalSize) || _segLogicalSize <= 0) continue;\n      var _segMetricStyle = {\n        fontStyle: _seg.fontStyle ?? cs.fontStyle,\n        fontWeight: _seg.fontWeight ?? cs.fontWeight,\n        fontSize: _segLogicalSize + \"px\",\n        fontFamily: _seg.fontFamily ?? cs.fontFamily\n      };\n      var _segLogicalMetrics = _measureFontMetrics(_segMetricStyle);\n      var _segComputedMetrics = _measureFontMetrics(_segMetricStyle, (_segLogicalSize * _segmentZoom).toFixed(4) + \"px\");\n      if (_seg.fontAscent === _segLogicalMetrics.ascent) _seg.fontAscent = _segComputedMetrics.ascent;\n      if (_seg.fontDescent === _segLogicalMetrics.descent) _seg.fontDescent = _segComputedMetrics.descent;\n      if (_seg.fontSize != null) _seg.fontSize = _segLogicalSize * _segmentZoom;\n    }\n    let textImageUri = void 0;\n    const textImageScale = 2;\n    if (tag === \"img\") {\n      imageSrc = el.currentSrc || el.src;\n      if (el.naturalWidth > 0 && el.naturalHeight > 0) {\n        var imageIntrinsic = { w: el.naturalWidth, h: el.naturalHeight };\n      }\n      var imageBroken = el.complete && el.naturalWidth === 0;\n      var imageAlt = el.alt || \"\";\n      var _imageHasSrc = el.hasAttribute(\"src\");\n      var _imageHasAlt = el.hasAttribute(\"alt\");\n      var _imageHasTitle = el.hasAttribute(\"title\");\n      var brokenImageFallback = {\n        schemaVersion: 1,\n        authority: \"chromium-ua-shadow-v1\",\n        sourceNodeIndex: _projectiveNodeIndex.get(el),\n        selector: sel2,\n        effectiveZoom: _effectiveZoomFor(el),\n        hostRect: {\n          x: rect.left - vp.x,\n          y: rect.top - vp.y,\n          width: rect.width,\n          height: rect.height\n        },\n        source: {\n          complete: el.complete === true,\n          naturalWidth: Number(el.naturalWidth) || 0,\n          naturalHeight: Number(el.naturalHeight) || 0,\n          currentSrc: el.currentSrc || \"\",\n          src: { present: _imageHasSrc, value: _imageHasSrc ? el.getAttribute(\"src\") : null },\n          alt: { present: _imageHasAlt, value: _imageHasAlt ? el.getAttribute(\"alt\") : null },\n          title: { present: _imageHasTitle, value: _imageHasTitle ? el.getAttribute(\"title\") : null },\n          // Blink HTMLImageElement::AltText: a present alt wins even when it\n          // is empty; title is consulted only when alt is absent.\n          resolvedText: _imageHasAlt ? el.getAttribute(\"alt\") || \"\" : _imageHasTitle ? el.getAttribute(\"title\") || \"\" : \"\"\n        }\n      };\n    } else if (tag === \"input\" && el.type === \"image\") {\n      imageSrc = el.src;\n    }\n    const _listsCounters = captureListsCounters(el, cs, tag);\n    let svgReferenceScope = void 0;\n    if (tag === \"svg\") {\n      const inlineSvgCapture = captureInlineSvg(el, cs, warn, sel2);\n      svgContent = inlineSvgCapture.content;\n      if (inlineSvgCapture.affineFreezeFailed && transformSubtreeRaster == null) {\n        transformSubtreeRaster = _makeTransformSubtreeRaster();\n      }\n      svgReferenceScope = _svgReferenceScope(el);\n    }\n    const children = [];\n    if (_contentVisHidden) {\n    } else\n      for (const child of el.children) {\n        if (tag === \"details\" && !el.open && child.tagName.toLowerCase() !== \"summary\") continue;\n        if (tag === \"select\" && (child.tagName.toLowerCase() === \"option\" || child.tagName.toLowerCase() === \"optgroup\")) continue;\n        const c = capture(child);\n        if (c) {\n          const _grp = c.scrollMarkerGroup;\n          const _before = c._scrollMarkerGroupBefore;\n          delete c.scrollMarkerGroup;\n          delete c._scrollMarkerGroupBefore;\n          const _btns = c.scrollButtons;\n          delete c.scrollButtons;\n          if (_grp && _before) children.push(_grp);\n          children.push(c);\n          if (_grp && !_before) children.push(_grp);\n          if (_btns) for (let _bi = 0; _bi < _btns.length; _bi++) children.push(_btns[_bi]);\n        }\n      }\n    const _animId = el.dataset != null ? el.dataset.domotionAnim : void 0;\n    const _magicKey = el.dataset != null ? el.dataset.magicKey : void 0;\n    const _fsBox = computeFieldsetLegendBox(el, tag, rect, vp);\n    const _captured = {\n      tag,\n      text,\n      x: _fsBox.x,\n      y: _fsBox.y,\n      width: _fsBox.width,\n      height: _fsBox.height,\n      fieldsetLegendNotch: _fsBox.fieldsetLegendNotch,\n      resizeHandle: captureResizeHandle(el, cs, tag, rect),\n      // DM-2481: populated by the Node-side live Chromium marker probe.  The\n      // serialized record is already in capture-viewport coordinates and may\n      // be explicitly partial/unavailable; the renderer must never infer a\n      // replacement from scrollWidth/clientWidth or scroll offsets.\n      scrollbars: (function() {\n        const _record = typeof args.sk === \"string\" && args.sk !== \"\" ? el[args.sk] : void 0;\n        if (_record == null && (cs.overflowX === \"auto\" || cs.overflowX === \"scroll\" || cs.overflowY === \"auto\" || cs.overflowY === \"scroll\")) {\n          warn(sel2, \"scrollbar-capture\", \"live Chromium scrollbar probe did not correlate this scroll host; legacy synthesis is disabled\");\n        }\n        return _record;\n      })(),\n      animId: _animId,\n      magicKey: _magicKey,\n      // DM-2457: private correlation only. The Node/CDP post-pass resolves the\n      // real generated ::marker fragment and deletes this index before return.\n      _summaryMarkerSourceNodeIndex: tag === \"summary\" && cs.display != null && cs.display.includes(\"list-item\") ? _projectiveNodeIndex.get(el) : void 0,\n      svgReferenceScope,\n      // DM-1106: effective cursor keyword for the auto cursor-overlay hit-test.\n      // Omitted when it resolves to the default arrow (the common case) to keep\n      // the tree lean — the overlay treats a missing value as `default`.\n      cursor: (() => {\n        const _c = resolveElementCursor(el, cs);\n        return _c === \"default\" ? void 0 : _c;\n      })(),\n      styles: {\n        // Border + background + outline + box-shadow fields — see\n        // walker/borders-backgrounds.ts. Includes the\n        // backgroundColor placeholder-shown fallback (DM-283), %-resolved\n        // corner radii (SK-1093), per-side color-input border tint\n        // workaround (DM-434), frosted-bg fallback (DM-476), per-layer\n        // background-image intrinsic dims (DM-308), and border-image\n        // intrinsic dims.\n        ...captureBordersBackgrounds(el, cs, tag, rect, isPlaceholderCapture, _effectiveZoomFor(el)),\n        backgroundAttachmentGeometry: (function() {\n          const _scale = _backgroundAttachmentPaintScaleFor(el);\n          return captureBackgroundAttachment(el, cs, rect, _scale[0], _scale[1]);\n        })(),\n        overflowX: cs.overflowX,\n        overflowY: cs.overflowY,\n        // DM-761: `overflow-clip-margin` extends the overflow clip outward\n        // from a reference box (content / padding / border) by a length.\n        // Blink serializes computed lengths before effective CSS zoom while\n        // DOMRects are already physical. Cross that boundary once here; the\n        // reference-box keyword is retained byte-for-byte.\n        overflowClipMargin: cs.overflowClipMargin ? physicalComputedTileSize(cs.overflowClipMargin, _effectiveZoomFor(el)) : void 0,\n        scrollbarGutter: cs.scrollbarGutter || \"auto\",\n        scrollWidth: el.scrollWidth,\n        scrollHeight: el.scrollHeight,\n        clientWidth: el.clientWidth,\n        clientHeight: el.clientHeight,\n        scrollTop: el.scrollTop,\n        scrollLeft: el.scrollLeft,\n        objectFit: cs.objectFit,\n        objectPosition: cs.objectPosition,\n        filter: cs.filter,\n        backdropFilter: cs.backdropFilter || cs.webkitBackdropFilter || \"\",\n        mixBlendMode: cs.mixBlendMode,\n        clipPath: cs.clipPath,\n        mask: cs.mask || cs.webkitMask || \"\",\n        maskImage: cs.maskImage || cs.webkitMaskImage || \"\",\n        maskMode: cs.maskMode || \"match-source\",\n        // Computed mask lengths are exposed before effective zoom, while the\n        // captured positioning rect is already in painted coordinates. Cross\n        // that boundary once; percentages stay unresolved until Blink's\n        // contain/cover tile has established the free space (DM-2379).\n        maskSize: physicalComputedTileSize(cs.maskSize || cs.webkitMaskSize || \"auto\", _effectiveZoomFor(el)),\n        maskPosition: physicalComputedTileSize(cs.maskPosition || cs.webkitMaskPosition || \"0% 0%\", _effectiveZoomFor(el)),\n        maskRepeat: cs.maskRepeat || cs.webkitMaskRepeat || \"repeat\",\n        maskComposite: cs.maskComposite || cs.webkitMaskComposite || \"add\",\n        maskIntrinsic: computeMaskIntrinsic(el, cs),\n        maskOrigin: cs.maskOrigin || cs.webkitMaskOrigin || \"border-box\",\n        maskClip: cs.maskClip || cs.webkitMaskClip || \"border-box\",\n        // DM-2472: BackgroundImageGeometry contracts the HTML border box by\n        // mask-origin independently from mask-clip. Computed padding/borders\n        // are pre-zoom CSS px while `rect` is already physical, so cross the\n        // effective-zoom boundary once at capture time.\n        maskBoxInsets: (function() {\n          var _maskImage = cs.maskImage || cs.webkitMaskImage || \"\";\n          if (_maskImage === \"\" || _maskImage === \"none\") return void 0;\n          var _zoom = _effectiveZoomFor(el);\n          var _physical = function(value) {\n            var _number = parseFloat(value || \"0\");\n            return Number.isFinite(_number) ? _number * _zoom : 0;\n          };\n          return {\n            border: {\n              top: _physical(cs.borderTopWidth),\n              right: _physical(cs.borderRightWidth),\n              bottom: _physical(cs.borderBottomWidth),\n              left: _physical(cs.borderLeftWidth)\n            },\n            padding: {\n              top: _physical(cs.paddingTop),\n              right: _physical(cs.paddingRight),\n              bottom: _physical(cs.paddingBottom),\n              left: _physical(cs.paddingLeft)\n            }\n          };\n        })(),\n        // DM-758: `mask-border-source` / legacy `-webkit-mask-box-image`. Chrome\n        // exposes only the legacy webkit name; modern `maskBorderSource`\n        // returns undefined. Capture source + slice / width / outset so the\n        // renderer can decide whether to route through the simplified\n        // full-element mask path (only safe when width / outset both `0`).\n        maskBorderSource: cs.webkitMaskBoxImageSource && cs.webkitMaskBoxImageSource !== \"none\" ? cs.webkitMaskBoxImageSource : void 0,\n        maskBorderSlice: cs.webkitMaskBoxImageSlice || void 0,\n        maskBorderWidth: cs.webkitMaskBoxImageWidth || void 0,\n        maskBorderOutset: cs.webkitMaskBoxImageOutset || void 0,\n        // DM-793: legacy `-webkit-mask-box-image-repeat` keyword (stretch /\n        // repeat / round / space) per axis. Mirrors `border-image-repeat`.\n        maskBorderRepeat: cs.webkitMaskBoxImageRepeat || void 0,\n        // DM-793: intrinsic dimensions of the mask-border-source raster /\n        // SVG asset. Same probe pattern as `borderImageIntrinsic*` — a\n        // detached `<img>` resolves the URL against the document base and\n        // reports `naturalWidth` / `naturalHeight` for raster sources and\n        // the `<svg width/height>` attributes (or viewBox-derived size) for\n        // SVG sources. Captured at capture time so the renderer can compute\n        // 9-slice source rects without re-fetching the asset.\n        maskBorderIntrinsicWidth: (function() {\n          var _url = extractCssUrl(cs.webkitMaskBoxImageSource || \"\");\n          if (_url == null) return void 0;\n          var _img = new Image();\n          _img.src = _url;\n          return _img.naturalWidth || void 0;\n        })(),\n        maskBorderIntrinsicHeight: (function() {\n          var _url = extractCssUrl(cs.webkitMaskBoxImageSource || \"\");\n          if (_url == null) return void 0;\n          var _img = new Image();\n          _img.src = _url;\n          return _img.naturalHeight || void 0;\n        })(),\n        listStyleType: cs.listStyleType,\n        listStyleImage: cs.listStyleImage,\n        display: cs.display,\n        listStylePosition: cs.listStylePosition,\n        paddingTop: cs.paddingTop,\n        paddingRight: cs.paddingRight,\n        paddingBottom: cs.paddingBottom,\n        paddingLeft: cs.paddingLeft,\n        marginTop: cs.marginTop,\n        marginRight: cs.marginRight,\n        marginBottom: cs.marginBottom,\n        marginLeft: cs.marginLeft,\n        zIndex: cs.zIndex,\n        position: cs.position,\n        float: cs.float,\n        // DM-1742: `pointer-events: none` makes an element transparent to\n        // cursor hit-testing (the auto cursor-overlay glyph picker). Captured\n        // only when `none` — the property inherits, so descendants report it\n        // themselves; every other value hit-tests normally.\n        pointerEvents: cs.pointerEvents === \"none\" ? \"none\" : void 0,\n        order: cs.order,\n        flexDirection: cs.flexDirection,\n        emptyCellsHidden: isTableCellHiddenByEmptyCells(el, cs, tag),\n        // Form-control fields — input / progress / meter / select / details\n        // + ::-webkit-* pseudos for slider track/thumb, color swatch, number\n        // spin button, search cancel, file-selector button. See\n        // walker/form-controls.ts. Input value-capture-as-text and color-\n        // input border tinting deliberately stay inline (entangled with\n        // text-shaping and border-color emission respectively).\n        ...captureFormControls(el, cs, tag),\n        ..._fileSelectorCapture,\n        // ComputedStyle::EffectiveAppearance after Blink's author-style\n        // adjustment. This is distinct from the computed `appearance`\n        // longhand and lets later decoration ownership split at the exact\n        // menulist-button boundary (DM-2455).\n        effectiveAppearance: _effectiveAppearance || void 0,\n        textShadow: cs.textShadow,\n        ...threadFrozenTransform(cs, frozenTransform, frozenTransformOrigin),\n        transformRelatedBox: _transformRelatedBox.get(el),\n        // CSS Transforms 2 §4: `transform-style` != `flat` (i.e. `preserve-3d`)\n        // creates a stacking context. Captured so the renderer's SC detection\n        // sees it; otherwise z-index:-1 descendants hoist past their intended\n        // SC and end up behind the wrong background (DM-589).\n        transformStyle: cs.transformStyle,\n        // DM-2385: keep perspective as its own computed ancestor signal. It\n        // creates stacking/fixed-CB ownership without appearing in a child's\n        // computed transform matrix; perspective-origin is the resolved\n        // border-box point and is inert when perspective computes to none.\n        perspective: cs.perspective,\n        perspectiveOrigin: cs.perspectiveOrigin,\n        backfaceVisibility: cs.backfaceVisibility,\n        webkitBoxReflect: cs.webkitBoxReflect,\n        willChange: cs.willChange,\n        contain: cs.contain,\n        isolation: cs.isolation,\n        writingMode: cs.writingMode,\n        textOrientation: cs.textOrientation,\n        // CSS resize: 'none' / 'both' / 'vertical' / 'horizontal' / 'block' /\n        // 'inline'. When non-none on a <textarea> Chrome paints a small\n        // diagonal-line resize handle in the bottom-right corner. (DM-339)\n        resize: cs.resize,\n        textOverflow: cs.textOverflow,\n        whiteSpace: cs.whiteSpace,\n        textTransform: cs.textTransform,\n        color: normColor(cs.color),\n        // DM-2470: font metrics live in Blink's pre-transform plane. Effective\n        // CSS zoom is layout-local and is crossed here exactly once; the later\n        // signed CSS transform is carried solely by textPaintGeometry.\n        fontSize: (function() {\n          var _fs = parseFloat(cs.fontSize);\n          if (!isFinite(_fs)) return cs.fontSize;\n          return (_fs * _effectiveZoomFor(el)).toFixed(4) + \"px\";\n        })(),\n        fontLogicalSize: cs.fontSize,\n        fontComputedSize: (function() {\n          var _fs = parseFloat(cs.fontSize);\n          if (!isFinite(_fs)) return cs.fontSize;\n          return (_fs * _effectiveZoomFor(el)).toFixed(4) + \"px\";\n        })(),\n        // DM-2051: an element with NO author-declared font-family is a Blink\n        // kStandardFamily description, which resolves to the SCRIPT-KEYED\n        // `settings.Standard(script)` — so `lang=ja` with no declared family\n        // paints the Japanese standard face for the whole run, though the\n        // computed string serializes to the concrete standard name (\"Times\").\n        // Rewrite that case to the `-webkit-standard` generic keyword, which is\n        // exactly what kStandardFamily maps to; the renderer's\n        // `matchFamilyNameToKey(\"-webkit-standard\", true, lang)` then routes it\n        // script-keyed. A declared `font-family: Times` (identical computed\n        // string, but Latin→Times / CJK→fallback) is left untouched.\n        fontFamily: _familyIsUADefault(el, cs.fontFamily) ? \"-webkit-standard\" : cs.fontFamily,\n        fontWeight: cs.fontWeight,\n        fontStyle: cs.fontStyle,\n        opacity: cs.opacity,\n        lineHeight: cs.lineHeight,\n        letterSpacing: cs.letterSpacing,\n        fontKerning: cs.fontKerning,\n        fontStretch: cs.fontStretch,\n        fontVariationSettings: cs.fontVariationSettings,\n        fontOpticalSizing: cs.fontOpticalSizing,\n        fontFeatureSettings: cs.fontFeatureSettings,\n        fontVariantAlternates: cs.fontVariantAlternates,\n        // The alias table is document-global but only alternate-bearing nodes\n        // can consume it; omit it from the common element shape to avoid\n        // repeating author rule data throughout the serialized tree.\n        fontFeatureValues: cs.fontVariantAlternates && cs.fontVariantAlternates !== \"normal\" ? _fontFeatureValuesFor(el.ownerDocument) : void 0,\n        // CSS font-variant-caps. 'small-caps' / 'all-small-caps' route to\n        // the OpenType smcp feature; renderer applies synthesized small-caps\n        // when the active font lacks smcp (Helvetica, Times, etc.). DM-361.\n        fontVariantCaps: cs.fontVariantCaps,\n        // CSS font-variant-east-asian / -numeric / -ligatures. Each maps to a\n        // set of OpenType feature tags (e.g. `traditional` → `trad`, `jis78` →\n        // `jp78`, `oldstyle-nums` → `onum`) that the path renderer forwards to\n        // fontkit shaping. Without these, e.g. `font-variant-east-asian:\n        // traditional` paints the simplified/JP default glyph (国) instead of\n        // the traditional form (國). DM-1117.\n        fontVariantEastAsian: cs.fontVariantEastAsian,\n        fontVariantNumeric: cs.fontVariantNumeric,\n        fontVariantLigatures: cs.fontVariantLigatures,\n        // CSS font-variant-position — maps to the OpenType subs/sups\n        // features (`font_features.cc:230-239`, rev 7d859f27). DM-2048.\n        fontVariantPosition: cs.fontVariantPosition,\n        // CSS font-synthesis-{weight,style,small-caps} — `auto` or `none`. Not a\n        // hint: Blink ANDs each into the corresponding synthesis decision, so\n        // `none` means Chrome paints the thin/upright/lowercase face where we\n        // would otherwise embolden, shear, or scale. DM-1971.\n        // CSS text-rendering — `optimizeSpeed` disables the normal-state\n        // ligature features at shaping time, the same way a non-zero\n        // letter-spacing does. DM-1963.\n        textRendering: cs.textRendering,\n        fontSynthesisWeight: cs.fontSynthesisWeight,\n        fontSynthesisStyle: cs.fontSynthesisStyle,\n        fontSynthesisSmallCaps: cs.fontSynthesisSmallCaps,\n        // CSS font-variant-emoji — a genuine face-selection input (it overrides\n        // the run's emoji-vs-text fallback priority and forces VS15/VS16 into\n        // the glyph lookups). The renderer threads it into the per-codepoint\n        // resolver and the raster-emoji overlay routing.\n        fontVariantEmoji: cs.fontVariantEmoji,\n        direction: cs.direction,\n        // `unicode-bidi` decides whether the characters' OWN bidi types are\n        // honored or overridden. `bidi-override` / `isolate-override` tell the\n        // UBA to treat every character as strong in `direction`, which is the\n        // one case the renderer cannot reconstruct from the text: it derives\n        // levels by running the algorithm on the characters, and the override\n        // is precisely an instruction to ignore what the characters say.\n        unicodeBidi: cs.unicodeBidi,\n        // Computed BCP-47 language tag from el.lang or nearest ancestor\n        // [lang], falling back to document.documentElement.lang. Used by the\n        // path renderer to route CJK Han fallback to the right PingFang\n        // regional variant. (DM-394)\n        lang: (function() {\n          var n = el;\n          while (n != null && n.nodeType === 1) {\n            if (n.lang) return n.lang;\n            n = n.parentElement;\n          }\n          return document.documentElement.lang || \"\";\n        })(),\n        textDecorationLine: cs.textDecorationLine,\n        textDecorationColor: cs.textDecorationColor,\n        textDecorationStyle: cs.textDecorationStyle,\n        textDecorationThickness: cs.textDecorationThickness,\n        textUnderlineOffset: cs.textUnderlineOffset,\n        textUnderlinePosition: cs.textUnderlinePosition,\n        textDecorationSkipInk: cs.textDecorationSkipInk,\n        // DM-920: text-emphasis. Captured per CSS Text Decoration 3 §3.5.\n        // `text-emphasis-style` resolved string (\"filled circle\" / \"open\n        // sesame\" / `\"★\"` etc.) maps to a single mark character in the\n        // renderer per Chromium's `ComputedStyle::TextEmphasisMarkString`\n        // (third_party/blink/renderer/core/style/computed_style.cc:\n        // kBullet U+2022 / kWhiteBullet U+25E6 / kBlackCircle U+25CF /\n        // kWhiteCircle U+25CB / kFisheye U+25C9 / kBullseye U+25CE /\n        // kBlackUpPointingTriangle U+25B2 / kWhiteUpPointingTriangle\n        // U+25B3 / kSesameDot U+FE45 / kWhiteSesameDot U+FE46).\n        textEmphasisStyle: cs.textEmphasisStyle,\n        textEmphasisColor: cs.textEmphasisColor,\n        textEmphasisPosition: cs.textEmphasisPosition\n      },\n      projectiveTransform,\n      projectiveHidden,\n      transformSubtreeRaster,\n      children,\n      imageSrc,\n      imageIntrinsic,\n      imageBroken,\n      imageAlt,\n      brokenImageFallback,\n      svgContent,\n      pseudoFragments: Array.isArray(_pseudoFragmentFacts) ? _pseudoFragmentFacts : void 0,\n      pseudoImages,\n      pseudoBoxes: pseudoBoxes.length > 0 ? pseudoBoxes : void 0,\n      // SK-1115: ::marker pseudo styles plus list-marker intrinsic dims and\n      // list-item index — see walker/lists-counters.ts.\n      ..._listsCounters,\n      textSegments: textSegments.length > 0 ? textSegments : void 0,\n      textPaintGeometry: _textPaintFact != null ? _textPaintFact.geometry : void 0,\n      // Correlation marker emitted only by the all-transform-neutral probe\n      // capture and consumed before that intermediate tree is discarded.\n      _textPaintSourceKey: args.tgp === true ? _textPaintSourceKeyFor(el) : void 0,\n      lineClampTextFragments: lineClampTextFragments || void 0,\n      textTop,\n      textLeft,\n      textHeight,\n      textWidth,\n      // DM-2446: Blink chooses and measures the face at computed size\n      // (logical CSS size × effective zoom), then the transform stage scales\n      // those metrics into paint space. Re-measure at computed size instead of\n      // multiplying logical-size metrics by zoom: variable-font metrics can\n      // change non-linearly when the computed size selects another instance.\n      fontAscent: (function() {\n        if (fontAscent == null) return fontAscent;\n        var _logical = parseFloat(cs.fontSize);\n        var _zoom = _effectiveZoomFor(el);\n        var _computed = _logical * _zoom;\n        if (!isFinite(_computed) || _zoom === 0) return fontAscent;\n        if (fontAscent !== _measureFontMetrics(cs).ascent) return fontAscent;\n        return _measureFontMetrics(cs, _computed.toFixed(4) + \"px\").ascent;\n      })(),\n      fontDescent: (function() {\n        if (fontDescent == null) return fontDescent;\n        var _logical = parseFloat(cs.fontSize);\n        var _zoom = _effectiveZoomFor(el);\n        var _computed = _logical * _zoom;\n        if (!isFinite(_computed) || _zoom === 0) return fontDescent;\n        if (fontDescent !== _measureFontMetrics(cs).descent) return fontDescent;\n        return _measureFontMetrics(cs, _computed.toFixed(4) + \"px\").descent;\n      })(),\n      inputXOffsets,\n      textImageUri,\n      textImageScale,\n      // Placeholder metadata (SK-1097 / SK-1100 / SK-1099): captured in\n      // walker/input-value.ts when the host is a placeholder-shown input\n      // or textarea. Undefined elsewhere.\n      isPlaceholderText: isPlaceholderCapture || void 0,\n      placeholderColor,\n      placeholderFontStyle,\n      placeholderFontWeight,\n      // Old-capture compatibility field. Current textarea and vertical text\n      // capture is fully vector; see walker/text-segments.ts.\n      elementRaster: computeElementRaster(el, cs, tag, rect, vp),\n      // DM-2149 / DM-2453: snapshot only appearances for which Blink's\n      // ThemePainter owns the complete host. EffectiveAppearance is derived\n      // above from the actual auto mapping and cascade-origin author flags.\n      // menulist-button/listbox/base states keep their author-owned host box\n      // structural; native decoration splitting is owned by DM-2455.\n      nativeControlRaster: (function() {\n        if (!_nativeControlTag || rect.width <= 0 || rect.height <= 0) return void 0;\n        if (_effectiveAppearance != null && !isWholeHostNativeAppearance(_effectiveAppearance)) return void 0;\n        const outlineWidth = parseFloat(cs.outlineWidth) || 0;\n        const outlineOffset = parseFloat(cs.outlineOffset) || 0;\n        const expand = cs.outlineStyle !== \"none\" && cs.outlineStyle !== \"hidden\" ? Math.max(0, outlineWidth + outlineOffset) : 0;\n        const paintOverflow = 1;\n        const rasterExpand = expand + paintOverflow;\n        return {\n          x: rect.left - vp.x - rasterExpand,\n          y: rect.top - vp.y - rasterExpand,\n          width: rect.width + rasterExpand * 2,\n          height: rect.height + rasterExpand * 2,\n          // Private capture-to-live-DOM correlation. The Node post-pass uses\n          // the pre-existing source registry, so no marker attribute can\n          // activate author CSS before the isolated Chromium screenshot.\n          sourceNodeIndex: _projectiveNodeIndex.get(el),\n          selector: sel2,\n          // LayoutProgress::IsDeterminate feeds ThemePainterDefault's native\n          // progress parameters. Only the missing-value state advances its\n          // platform paint independently of author animation timelines.\n          frameSensitive: tag === \"progress\" && !el.hasAttribute(\"value\") || void 0\n        };\n      })(),\n      // A CSS-owned host can still contain either ThemePainter's select arrow\n      // or layout-backed closed-UA-shadow decorations. Keep the host box and\n      // value text structural, but reserve this narrow overlay so a failed\n      // Chromium isolation can never reopen the sampled glyph functions.\n      nativeControlDecorationRaster: (function() {\n        if (_nativeDecorationKinds.length === 0 || rect.width <= 0 || rect.height <= 0) return void 0;\n        const rasterExpand = 1;\n        const _fileButtonPart = _nativeDecorationKinds.indexOf(\"file-selector-button\") >= 0 ? _nativeDecorationParts.find((_part) => _part.kind === \"file-selector-button\") : void 0;\n        const base = _fileButtonPart != null ? {\n          x: _fileButtonPart.x - vp.x,\n          y: _fileButtonPart.y - vp.y,\n          width: _fileButtonPart.width,\n          height: _fileButtonPart.height,\n          kinds: _nativeDecorationKinds,\n          exactPartBox: true\n        } : {\n          x: rect.left - vp.x - rasterExpand,\n          y: rect.top - vp.y - rasterExpand,\n          width: rect.width + rasterExpand * 2,\n          height: rect.height + rasterExpand * 2,\n          kinds: _nativeDecorationKinds\n        };\n        if (_nativeDecorationUnavailableReason != null) {\n          return Object.assign(base, {\n            unavailableReason: _nativeDecorationUnavailableReason,\n            selector: sel2\n          });\n        }\n        if (_missingNativeDecorationKinds.length > 0) {\n          return Object.assign(base, {\n            unavailableReason: \"pierced UA-shadow node missing: \" + _missingNativeDecorationKinds.join(\", \"),\n            selector: sel2\n          });\n        }\n        const selectArrow = _nativeDecorationKinds.indexOf(\"menulist-button-arrow\") >= 0;\n        if (!selectArrow && _nativeDecorationParts.length === 0) {\n          return Object.assign(base, { empty: true });\n        }\n        return Object.assign(base, {\n          sourceNodeIndex: _projectiveNodeIndex.get(el),\n          selector: sel2,\n          selectArrow: selectArrow || void 0,\n          parts: _nativeDecorationParts.length > 0 ? _nativeDecorationParts : void 0\n        });\n      })(),\n      // DM-2171: backdrop-filter samples already-painted content behind this\n      // element through a distinct Blink effect node. An img-rendered SVG has\n      // no equivalent input surface, so preserve Chromium's composited pixels\n      // for the complete isolation subtree at its paint-order position.\n      backdropFilterRaster: (function() {\n        const value = cs.backdropFilter || cs.webkitBackdropFilter || \"\";\n        if (value === \"\" || value === \"none\" || rect.width <= 0 || rect.height <= 0) return void 0;\n        const token = \"bf\" + _backdropRasterSeq++;\n        el.setAttribute(\"data-domotion-backdrop-raster\", token);\n        return { x: rect.left - vp.x, y: rect.top - vp.y, width: rect.width, height: rect.height, token };\n      })(),\n      // DM-2415: a CSS URL filter containing feConvolveMatrix needs Blink's\n      // original layer-space SourceGraphic pixels. The Node post-pass replaces\n      // this placeholder with the isolated, fully-filtered Chromium surface.\n      urlFilterRaster: urlFilterRasterToken == null ? void 0 : {\n        x: rect.left - vp.x,\n        y: rect.top - vp.y,\n        width: rect.width,\n        height: rect.height,\n        token: urlFilterRasterToken\n      }\n    };\n    detectInlineFragments(el, cs, vp, _captured);\n    if (bordersOnlyCell) {\n      _captured.text = \"\";\n      _captured.children = [];\n      _captured.styles.backgroundColor = \"rgba(0, 0, 0, 0)\";\n      _captured.styles.backgroundImage = void 0;\n      _captured.textSegments = void 0;\n      _captured.imageSrc = void 0;\n      _captured.svgContent = void 0;\n      _captured.pseudoImages = void 0;\n      _captured.elementRaster = void 0;\n    }\n    if (tag === \"iframe\" && !bordersOnlyCell) {\n      var _iframeNode = _captureIframeRecursion(el, cs, rect);\n      if (_iframeNode != null) {\n        _captured.children = [_iframeNode];\n        _captured._iframeRecursed = true;\n        _captured.styles.overflowX = \"hidden\";\n        _captured.styles.overflowY = \"hidden\";\n      }\n    }\n    handleReplacedElement(el, cs, tag, rect, _captured, bordersOnlyCell);\n    delete _captured._iframeRecursed;\n    if (!bordersOnlyCell) {\n      var _smg = _captureScrollMarkerGroup(el, cs, rect);\n      if (_smg) {\n        _captured.scrollMarkerGroup = _smg.node;\n        _captured._scrollMarkerGroupBefore = _smg.before;\n      }\n      var _sbtns = _captureScrollButtons(el, cs, rect);\n      if (_sbtns) _captured.scrollButtons = _sbtns;\n    }\n    return _captured;\n  };\n  function _captureScrollMarkerGroup(el, cs, rect) {\n    var smg = cs.scrollMarkerGroup != null && cs.scrollMarkerGroup !== \"\" ? cs.scrollMarkerGroup : cs.getPropertyValue ? cs.getPropertyValue(\"scroll-marker-group\") : \"\";\n    if (!smg || smg.indexOf(\"none\") === 0) return void 0;\n    var position = smg.indexOf(\"before\") === 0 ? \"before\" : smg.indexOf(\"after\") === 0 ? \"after\" : null;\n    if (!position) return void 0;\n    var items = [];\n    for (var i = 0; i < el.children.length; i++) {\n      var child = el.children[i];\n      var mcs = window.getComputedStyle(child, \"::scroll-marker\");\n      var content = mcs.content;\n      if (!content || content === \"none\" || content === \"normal\") continue;\n      items.push({ mcs, content });\n    }\n    if (items.length === 0) return void 0;\n    var gcs = window.getComputedStyle(el, \"::scroll-marker-group\");\n    var doc = el.ownerDocument;\n    var container = doc.createElement(\"div\");\n    var groupWidth = rect.width;\n    container.style.boxSizing = \"border-box\";\n    container.style.position = \"absolute\";\n    container.style.margin = \"0\";\n    container.style.display = gcs.display && gcs.display !== \"inline\" ? gcs.display : \"flex\";\n    container.style.justifyContent = gcs.justifyContent || \"center\";\n    container.style.alignItems = \"flex-start\";\n    container.style.gap = \"0\";\n    container.style.padding = gcs.padding || \"0\";\n    container.style.background = gcs.backgroundColor || \"transparent\";\n    container.style.borderRadius = gcs.borderRadius || \"0\";\n    container.style.width = groupWidth + \"px\";\n    container.style.left = \"-99999px\";\n    container.style.top = \"0px\";\n    for (var j = 0; j < items.length; j++) {\n      var mc = items[j].mcs;\n      var m = doc.createElement(\"div\");\n      var txt = items[j].content;\n      if (txt === '\"\"' || txt === \"''\") txt = \"\";\n      else if (txt.length >= 2 && (txt[0] === '\"' && txt[txt.length - 1] === '\"' || txt[0] === \"'\" && txt[txt.length - 1] === \"'\")) txt = txt.slice(1, -1);\n      else txt = \"\";\n      m.textContent = txt;\n      m.style.boxSizing = mc.boxSizing || \"content-box\";\n      m.style.flex = \"0 0 auto\";\n      if (txt === \"\") {\n        m.style.width = mc.width;\n        m.style.height = mc.height;\n      }\n      m.style.borderRadius = mc.borderRadius;\n      m.style.background = mc.backgroundColor;\n      m.style.color = mc.color;\n      m.style.marginTop = mc.marginTop || \"0\";\n      m.style.marginBottom = mc.marginBottom || \"0\";\n      m.style.marginLeft = mc.marginLeft || \"0\";\n      m.style.marginRight = mc.marginRight || \"0\";\n      m.style.paddingTop = mc.paddingTop;\n      m.style.paddingBottom = mc.paddingBottom;\n      m.style.paddingLeft = \"0\";\n      m.style.paddingRight = \"0\";\n      m.style.fontSize = mc.fontSize;\n      m.style.fontWeight = mc.fontWeight;\n      m.style.fontFamily = mc.fontFamily;\n      m.style.lineHeight = mc.lineHeight;\n      m.style.display = mc.display && mc.display !== \"inline\" ? mc.display : \"inline-block\";\n      if (mc.transform && mc.transform !== \"none\") m.style.transform = mc.transform;\n      if (mc.transformOrigin) m.style.transformOrigin = mc.transformOrigin;\n      var bw = parseFloat(mc.borderTopWidth || \"0\") || 0;\n      if (bw > 0) {\n        m.style.borderStyle = mc.borderTopStyle;\n        m.style.borderWidth = mc.borderTopWidth;\n        m.style.borderColor = mc.borderTopColor;\n      }\n      container.appendChild(m);\n    }\n    var padTop = parseFloat(gcs.paddingTop || \"0\") || 0;\n    var padBottom = parseFloat(gcs.paddingBottom || \"0\") || 0;\n    var groupBoxH = padTop + padBottom;\n    container.style.height = groupBoxH + \"px\";\n    container.style.overflow = \"visible\";\n    doc.body.appendChild(container);\n    var targetTop = position === \"after\" ? rect.bottom : rect.top - groupBoxH;\n    container.style.left = rect.left + window.scrollX + \"px\";\n    container.style.top = targetTop + window.scrollY + \"px\";\n    var node = capture(container);\n    doc.body.removeChild(container);\n    if (!node) return void 0;\n    return { node, before: position === \"before\" };\n  }\n  function _scrollButtonAuthorRules(el) {\n    var sides = {};\n    var disabled = {};\n    var star = {};\n    var sheets = el.ownerDocument.styleSheets;\n    for (var s = 0; s < sheets.length; s++) {\n      var rules;\n      try {\n        rules = sheets[s].cssRules;\n      } catch (e) {\n        continue;\n      }\n      if (!rules) continue;\n      for (var r = 0; r < rules.length; r++) {\n        var rule = rules[r];\n        var sel2 = rule.selectorText;\n        if (!sel2) continue;\n        var at = sel2.indexOf(\"::scroll-button(\");\n        if (at < 0) continue;\n        var close = sel2.indexOf(\")\", at);\n        if (close < 0) continue;\n        var dir = sel2.slice(at + 16, close).trim();\n        var base = sel2.slice(0, at).trim();\n        var matches = false;\n        try {\n          matches = base === \"\" || el.matches(base);\n        } catch (e) {\n          matches = false;\n        }\n        if (!matches) continue;\n        var isDisabled = sel2.slice(close + 1).indexOf(\":disabled\") >= 0;\n        var bucket = isDisabled ? disabled : dir === \"*\" ? star : sides[dir] || (sides[dir] = {});\n        var decl = rule.style;\n        for (var d = 0; d < decl.length; d++) bucket[decl[d]] = decl.getPropertyValue(decl[d]);\n      }\n    }\n    for (var k in sides) {\n      if (!Object.prototype.hasOwnProperty.call(sides, k)) continue;\n      var merged = {};\n      for (var sp in star) if (Object.prototype.hasOwnProperty.call(star, sp)) merged[sp] = star[sp];\n      for (var op in sides[k]) if (Object.prototype.hasOwnProperty.call(sides[k], op)) merged[op] = sides[k][op];\n      sides[k] = merged;\n    }\n    return { sides, disabled };\n  }\n  function _captureScrollButtons(el, cs, rect) {\n    var probe = window.getComputedStyle(el, \"::scroll-button(left)\").content;\n    if (!probe || probe === \"none\" || probe === \"normal\") {\n      probe = window.getComputedStyle(el, \"::scroll-button(right)\").content;\n      if (!probe || probe === \"none\" || probe === \"normal\") return void 0;\n    }\n    var rules = _scrollButtonAuthorRules(el);\n    var doc = el.ownerDocument;\n    var maxX = el.scrollWidth - el.clientWidth;\n    var maxY = el.scrollHeight - el.clientHeight;\n    var nodes = [];\n    for (var dir in rules.sides) {\n      if (!Object.prototype.hasOwnProperty.call(rules.sides, dir)) continue;\n      var decls = rules.sides[dir];\n      var isDisabled = false;\n      if (dir === \"left\" || dir === \"inline-start\") isDisabled = el.scrollLeft <= 0;\n      else if (dir === \"right\" || dir === \"inline-end\") isDisabled = el.scrollLeft >= maxX - 1;\n      else if (dir === \"up\" || dir === \"block-start\") isDisabled = el.scrollTop <= 0;\n      else if (dir === \"down\" || dir === \"block-end\") isDisabled = el.scrollTop >= maxY - 1;\n      var btn = doc.createElement(\"div\");\n      var content = \"\";\n      for (var p in decls) {\n        if (!Object.prototype.hasOwnProperty.call(decls, p)) continue;\n        if (p === \"content\") {\n          content = decls[p];\n          continue;\n        }\n        try {\n          btn.style.setProperty(p, decls[p]);\n        } catch (e) {\n        }\n      }\n      if (isDisabled) {\n        for (var dp in rules.disabled) {\n          if (!Object.prototype.hasOwnProperty.call(rules.disabled, dp)) continue;\n          try {\n            btn.style.setProperty(dp, rules.disabled[dp]);\n          } catch (e) {\n          }\n        }\n      }\n      if (!btn.style.position || btn.style.position === \"static\") btn.style.position = \"absolute\";\n      btn.style.margin = \"0\";\n      var txt = \"\";\n      if (content.length >= 2 && (content[0] === '\"' && content[content.length - 1] === '\"' || content[0] === \"'\" && content[content.length - 1] === \"'\")) {\n        txt = content.slice(1, -1);\n      }\n      btn.textContent = txt;\n      doc.body.appendChild(btn);\n      var node = capture(btn);\n      doc.body.removeChild(btn);\n      if (node) nodes.push(node);\n    }\n    return nodes.length ? nodes : void 0;\n  }\n  function _frameIsCrossOrigin(el) {\n    try {\n      var w = el.contentWindow;\n      if (w == null) return true;\n      var o = w.location && w.location.origin;\n      if (o == null || o === \"\" || o === \"null\") return false;\n      return o !== location.origin;\n    } catch (e) {\n      return true;\n    }\n  }\n  function _crossOriginFrameAllowed(el) {\n    if (_crossOriginAllow == null) return false;\n    var url;\n    try {\n      url = el.contentWindow && el.contentWindow.location ? el.contentWindow.location.href : el.src;\n    } catch (e) {\n      url = el.src;\n    }\n    return frameHostAllowed(url || \"\", _crossOriginAllow);\n  }\n  function _iframeIsRecursable(el) {\n    if (el.tagName == null || el.tagName.toLowerCase() !== \"iframe\") return null;\n    var doc;\n    try {\n      doc = el.contentDocument;\n    } catch (e) {\n      return null;\n    }\n    if (doc == null || doc.body == null || doc.documentElement == null) return null;\n    if (_frameIsCrossOrigin(el) && !_crossOriginFrameAllowed(el)) return null;\n    return doc;\n  }\n  function _captureIframeRecursion(el, cs, rect) {\n    var doc = _iframeIsRecursable(el);\n    if (doc == null) return void 0;\n    var bsw = sideWidths(cs, \"border\", \"Width\");\n    var dx = rect.left + bsw.left + (parseFloat(cs.paddingLeft) || 0);\n    var dy = rect.top + bsw.top + (parseFloat(cs.paddingTop) || 0);\n    var savedX = vp.x, savedY = vp.y;\n    vp.x = savedX - dx;\n    vp.y = savedY - dy;\n    var node;\n    try {\n      _runInnerDocumentPrePasses(doc);\n      node = capture(doc.documentElement);\n    } catch (e) {\n      node = void 0;\n    } finally {\n      vp.x = savedX;\n      vp.y = savedY;\n    }\n    if (node == null) return void 0;\n    var canvasColor = _resolveIframeCanvasColor(doc);\n    if (canvasColor != null) {\n      node.styles.backgroundColor = canvasColor;\n      var vpW = doc.documentElement.clientWidth || node.width;\n      var vpH = doc.documentElement.clientHeight || node.height;\n      if (node.width < vpW) node.width = vpW;\n      if (node.height < vpH) node.height = vpH;\n    }\n    return node;\n  }\n  function _isOpaqueColor(c) {\n    return c != null && c !== \"\" && c !== \"transparent\" && !/,\\s*0\\s*\\)\\s*$/.test(c);\n  }\n  function _resolveIframeCanvasColor(doc) {\n    var htmlBg = getComputedStyle(doc.documentElement).backgroundColor;\n    if (_isOpaqueColor(htmlBg)) return normColor(htmlBg);\n    var bodyBg = doc.body != null ? getComputedStyle(doc.body).backgroundColor : null;\n    if (_isOpaqueColor(bodyBg)) return normColor(bodyBg);\n    return null;\n  }\n  function _runInnerDocumentPrePasses(doc) {\n    var rootEl = doc.documentElement;\n    var allEls = rootEl.getElementsByTagName(\"*\");\n    for (var i = 0; i < allEls.length; i++) {\n      var el = allEls[i];\n      var pos = getComputedStyle(el).position;\n      if (pos !== \"fixed\" && pos !== \"sticky\") continue;\n      var r = el.getBoundingClientRect();\n      if (r.right < vp.x || r.bottom < vp.y || r.left > vp.x + vp.width || r.top > vp.y + vp.height) continue;\n      var cur = el.parentElement;\n      while (cur != null && cur !== rootEl.parentElement) {\n        if (_fixedAncestors.has(cur)) break;\n        _fixedAncestors.add(cur);\n        cur = cur.parentElement;\n      }\n    }\n    for (var t = 0; t < allEls.length; t++) {\n      var tel = allEls[t];\n      var tt = getComputedStyle(tel).transform;\n      if (tt === \"none\" || tt === \"\") continue;\n      _transformInfluenced.add(tel);\n      var tdescs = tel.getElementsByTagName(\"*\");\n      for (var td = 0; td < tdescs.length; td++) _transformInfluenced.add(tdescs[td]);\n    }\n    _counterPreWalk(rootEl);\n    _runCounterStylePrewalk(doc);\n  }\n  const root = document.querySelector(sel);\n  if (!root) return { tree: [], warnings: [] };\n  const _fixedAncestors = /* @__PURE__ */ new Set();\n  const _allEls = root.getElementsByTagName(\"*\");\n  for (let _i = 0; _i < _allEls.length; _i++) {\n    const _el = _allEls[_i];\n    const _pos = getComputedStyle(_el).position;\n    if (_pos !== \"fixed\" && _pos !== \"sticky\") continue;\n    const _r = _el.getBoundingClientRect();\n    const _outside = _r.right < vp.x || _r.bottom < vp.y || _r.left > vp.x + vp.width || _r.top > vp.y + vp.height;\n    if (_outside) continue;\n    let _cur = _el.parentElement;\n    while (_cur != null && _cur !== root.parentElement) {\n      if (_fixedAncestors.has(_cur)) break;\n      _fixedAncestors.add(_cur);\n      _cur = _cur.parentElement;\n    }\n  }\n  const _transformInfluenced = /* @__PURE__ */ new Set();\n  for (let _ti = 0; _ti < _allEls.length; _ti++) {\n    const _tel = _allEls[_ti];\n    const _tt = getComputedStyle(_tel).transform;\n    if (_tt === \"none\" || _tt === \"\") continue;\n    _transformInfluenced.add(_tel);\n    const _tdescs = _tel.getElementsByTagName(\"*\");\n    for (let _tj = 0; _tj < _tdescs.length; _tj++) {\n      _transformInfluenced.add(_tdescs[_tj]);\n    }\n  }\n  const _transformRelatedBox = /* @__PURE__ */ new WeakMap();\n  const _transformRelatedWillChange = /* @__PURE__ */ new Set([\n    \"transform\",\n    \"transform-style\",\n    \"perspective\",\n    \"translate\",\n    \"rotate\",\n    \"scale\",\n    \"offset-path\",\n    \"offset-position\"\n  ]);\n  const _hasTransformRelatedSignal = (_cs) => {\n    if (_cs.transform != null && _cs.transform !== \"\" && _cs.transform !== \"none\" || _cs.translate != null && _cs.translate !== \"\" && _cs.translate !== \"none\" || _cs.rotate != null && _cs.rotate !== \"\" && _cs.rotate !== \"none\" || _cs.scale != null && _cs.scale !== \"\" && _cs.scale !== \"none\" || _cs.transformStyle === \"preserve-3d\" || _cs.perspective != null && _cs.perspective !== \"\" && _cs.perspective !== \"none\") return true;\n    if (_cs.willChange == null || _cs.willChange === \"\" || _cs.willChange === \"auto\") return false;\n    const _tokens = _cs.willChange.split(/[\\s,]+/);\n    for (let _wi = 0; _wi < _tokens.length; _wi++) {\n      if (_transformRelatedWillChange.has(_tokens[_wi].toLowerCase())) return true;\n    }\n    return false;\n  };\n  const _ownershipEls = [root, ...Array.from(_allEls)];\n  let _ownershipAncestor = root.parentElement;\n  while (_ownershipAncestor != null) {\n    _ownershipEls.push(_ownershipAncestor);\n    _ownershipAncestor = _ownershipAncestor.parentElement;\n  }\n  const _probeUnsupportedTags = /^(?:AUDIO|CANVAS|EMBED|IFRAME|IMG|INPUT|METER|OBJECT|PROGRESS|SELECT|TEXTAREA|VIDEO)$/;\n  for (let _oi = 0; _oi < _ownershipEls.length; _oi++) {\n    const _owner = _ownershipEls[_oi];\n    const _ownerStyle = getComputedStyle(_owner);\n    if (!_hasTransformRelatedSignal(_ownerStyle)) continue;\n    if (_owner.namespaceURI === \"http://www.w3.org/2000/svg\" || _probeUnsupportedTags.test(_owner.tagName)) continue;\n    const _probeHost = document.createElement(\"span\");\n    _probeHost.setAttribute(\"aria-hidden\", \"true\");\n    _probeHost.style.setProperty(\"all\", \"initial\", \"important\");\n    _probeHost.style.setProperty(\"display\", _ownerStyle.display, \"important\");\n    _probeHost.style.setProperty(\"perspective\", \"1px\", \"important\");\n    _probeHost.style.setProperty(\"visibility\", \"hidden\", \"important\");\n    _probeHost.style.setProperty(\"width\", \"0\", \"important\");\n    _probeHost.style.setProperty(\"height\", \"0\", \"important\");\n    _probeHost.style.setProperty(\"margin\", \"0\", \"important\");\n    _probeHost.style.setProperty(\"padding\", \"0\", \"important\");\n    _probeHost.style.setProperty(\"border\", \"0\", \"important\");\n    const _probe = document.createElement(\"i\");\n    _probe.setAttribute(\"aria-hidden\", \"true\");\n    _probe.style.setProperty(\"all\", \"initial\", \"important\");\n    _probe.style.setProperty(\"position\", \"fixed\", \"important\");\n    _probe.style.setProperty(\"width\", \"0\", \"important\");\n    _probe.style.setProperty(\"height\", \"0\", \"important\");\n    _probeHost.appendChild(_probe);\n    try {\n      (document.body || document.documentElement).appendChild(_probeHost);\n      _transformRelatedBox.set(_owner, _probe.offsetParent === _probeHost);\n    } catch (_e) {\n    } finally {\n      _probeHost.remove();\n    }\n  }\n  const _projectiveFacts = Array.isArray(args.pq) ? args.pq : [];\n  const _projectiveDomNodes = typeof args.pqk === \"string\" && Array.isArray(globalThis[args.pqk]) ? globalThis[args.pqk] : [];\n  const _projectiveNodeIndex = /* @__PURE__ */ new WeakMap();\n  const _projectedQuads = /* @__PURE__ */ new WeakMap();\n  const _projectiveAbsH = /* @__PURE__ */ new WeakMap();\n  for (let _pi = 0; _pi < _projectiveFacts.length; _pi++) {\n    const _fact = _projectiveFacts[_pi];\n    const _pel = _projectiveDomNodes[_pi];\n    if (_pel == null || _fact == null) continue;\n    _projectiveNodeIndex.set(_pel, _pi);\n    if (_fact.role === \"svg-graphics\") continue;\n    const _values = _fact.borderQuad || _fact.quad;\n    if (!Array.isArray(_values) || _values.length !== 8) continue;\n    _projectedQuads.set(_pel, [\n      { x: _values[0], y: _values[1] },\n      { x: _values[2], y: _values[3] },\n      { x: _values[4], y: _values[5] },\n      { x: _values[6], y: _values[7] }\n    ]);\n  }\n  const _nonAffineProjectiveRoots = /* @__PURE__ */ new Set();\n  for (const _ownerIndex of selectProjectiveRasterOwnerIndexes(_projectiveFacts)) {\n    const _owner = _projectiveDomNodes[_ownerIndex];\n    if (_owner != null) _nonAffineProjectiveRoots.add(_owner);\n  }\n  const _invertH = (m) => {\n    const [a, b, c, d, e, f, g, h, i] = m;\n    const A = e * i - f * h, B = c * h - b * i, C = b * f - c * e;\n    const D = f * g - d * i, E = a * i - c * g, F = c * d - a * f;\n    const G = d * h - e * g, H = b * g - a * h, I = a * e - b * d;\n    const det = a * A + b * D + c * G;\n    if (!isFinite(det) || Math.abs(det) < 1e-12) return null;\n    return [A / det, B / det, C / det, D / det, E / det, F / det, G / det, H / det, I / det];\n  };\n  const _mulH = (a, b) => [\n    a[0] * b[0] + a[1] * b[3] + a[2] * b[6],\n    a[0] * b[1] + a[1] * b[4] + a[2] * b[7],\n    a[0] * b[2] + a[1] * b[5] + a[2] * b[8],\n    a[3] * b[0] + a[4] * b[3] + a[5] * b[6],\n    a[3] * b[1] + a[4] * b[4] + a[5] * b[7],\n    a[3] * b[2] + a[4] * b[5] + a[5] * b[8],\n    a[6] * b[0] + a[7] * b[3] + a[8] * b[6],\n    a[6] * b[1] + a[7] * b[4] + a[8] * b[7],\n    a[6] * b[2] + a[7] * b[5] + a[8] * b[8]\n  ];\n  const _homographyForRect = (rect, q) => {\n    const x = rect.left - vp.x, y = rect.top - vp.y, w = rect.width, h = rect.height;\n    if (w <= 0 || h <= 0) return null;\n    const a = (q[1].x - q[0].x) / w, d = (q[1].y - q[0].y) / w;\n    const b = (q[3].x - q[0].x) / h, e = (q[3].y - q[0].y) / h;\n    return [a, b, q[0].x - a * x - b * y, d, e, q[0].y - d * x - e * y, 0, 0, 1];\n  };\n  const _animInfluenced = /* @__PURE__ */ new Set();\n  for (let _ai = 0; _ai < _allEls.length; _ai++) {\n    const _ael = _allEls[_ai];\n    if (_ael.dataset == null || _ael.dataset.domotionAnim == null || _ael.dataset.domotionAnim === \"\") continue;\n    _animInfluenced.add(_ael);\n    const _adescs = _ael.getElementsByTagName(\"*\");\n    for (let _aj = 0; _aj < _adescs.length; _aj++) _animInfluenced.add(_adescs[_aj]);\n  }\n  const _cumulativeZoom = /* @__PURE__ */ new Map();\n  const _effectiveZoomFor = (el) => {\n    if (el == null) return 1;\n    const hit = _cumulativeZoom.get(el);\n    if (hit != null) return hit;\n    const parentZoom = _effectiveZoomFor(el.parentElement);\n    const own = parseFloat(getComputedStyle(el).zoom);\n    const zoom = parentZoom * (Number.isFinite(own) && own > 0 ? own : 1);\n    _cumulativeZoom.set(el, zoom);\n    return zoom;\n  };\n  const _backgroundAttachmentAxisScale = (_tt) => {\n    if (_tt == null || _tt === \"none\" || _tt === \"\") return [1, 1];\n    const _m2 = /^matrix\\(\\s*([-\\d.eE+]+)\\s*,\\s*([-\\d.eE+]+)\\s*,\\s*([-\\d.eE+]+)\\s*,\\s*([-\\d.eE+]+)/.exec(_tt);\n    let _sa = 1, _sd = 1;\n    if (_m2 != null) {\n      _sa = parseFloat(_m2[1]);\n      _sd = parseFloat(_m2[4]);\n    } else {\n      const _m3 = /^matrix3d\\(([^)]+)\\)/.exec(_tt);\n      if (_m3 != null) {\n        const _parts = _m3[1].split(\",\");\n        _sa = parseFloat(_parts[0]);\n        _sd = parseFloat(_parts[5]);\n      }\n    }\n    if (!isFinite(_sa) || !isFinite(_sd)) return [1, 1];\n    const _sx = Math.abs(_sa) > 0 ? Math.abs(_sa) : 1;\n    const _sy = Math.abs(_sd) > 0 ? Math.abs(_sd) : 1;\n    return [_sx, _sy];\n  };\n  const _backgroundAttachmentPaintScale = /* @__PURE__ */ new WeakMap();\n  const _backgroundAttachmentPaintScaleFor = (el) => {\n    if (el == null) return [1, 1];\n    const _hit = _backgroundAttachmentPaintScale.get(el);\n    if (_hit != null) return _hit;\n    const _parent = _backgroundAttachmentPaintScaleFor(el.parentElement);\n    const _styleWindow = el.ownerDocument?.defaultView ?? window;\n    const _style = _styleWindow.getComputedStyle(el);\n    const _effectiveTransform = composeEffectiveTransform(_style);\n    const _ownScale = transformHasRotationOrSkew(_effectiveTransform) ? [1, 1] : _backgroundAttachmentAxisScale(_effectiveTransform);\n    const _ownZoom = parseFloat(_style.zoom);\n    const _zoom = Number.isFinite(_ownZoom) && _ownZoom > 0 ? _ownZoom : 1;\n    const _resolved = [\n      _parent[0] * _ownScale[0] * _zoom,\n      _parent[1] * _ownScale[1] * _zoom\n    ];\n    _backgroundAttachmentPaintScale.set(el, _resolved);\n    return _resolved;\n  };\n  const _counterSnapshot = /* @__PURE__ */ new WeakMap();\n  function _parseCounterDecl(declStr, defaultValue) {\n    if (!declStr || declStr === \"none\") return [];\n    const tokens = declStr.split(/\\s+/);\n    const out = [];\n    let i = 0;\n    while (i < tokens.length) {\n      const name = tokens[i++];\n      if (!name) continue;\n      let value = defaultValue;\n      if (i < tokens.length && /^-?\\d+$/.test(tokens[i])) {\n        value = parseInt(tokens[i++], 10);\n      }\n      out.push({ name, value });\n    }\n    return out;\n  }\n  const _counterStacks = /* @__PURE__ */ new Map();\n  const _isAncestorOrSelf = (ancestor, node) => ancestor === node || ancestor.contains(node);\n  function _stack(name) {\n    let stack = _counterStacks.get(name);\n    if (stack == null) {\n      stack = [];\n      _counterStacks.set(name, stack);\n    }\n    return stack;\n  }\n  function _removeStale(name, el) {\n    const stack = _stack(name);\n    while (stack.length > 0) {\n      const parent = stack[stack.length - 1].scopeParent;\n      if (parent == null || _isAncestorOrSelf(parent, el)) break;\n      stack.pop();\n    }\n  }\n  function _findInnermost(name) {\n    const stack = _stack(name);\n    return stack.length ? stack[stack.length - 1] : null;\n  }\n  function _snapshotCounters() {\n    const result2 = [];\n    for (const [name, stack] of _counterStacks) for (const entry2 of stack) result2.push({ name, value: entry2.value });\n    return result2;\n  }\n  function _applyCounterStyle(owner, scopeParent, style) {\n    const touched = /* @__PURE__ */ new Set();\n    const resets = _parseCounterDecl(style.counterReset, 0);\n    const increments = _parseCounterDecl(style.counterIncrement, 1);\n    const sets = _parseCounterDecl(style.counterSet, 0);\n    for (const item of [...resets, ...increments, ...sets]) touched.add(item.name);\n    for (const name of touched) _removeStale(name, owner);\n    for (const { name, value } of resets) {\n      const stack = _stack(name);\n      if (stack.length && stack[stack.length - 1].scopeParent === scopeParent) stack.pop();\n      stack.push({ name, value, owner, scopeParent });\n    }\n    for (const { name, value } of increments) {\n      const current = _findInnermost(name);\n      if (current) current.value += value;\n      else _stack(name).push({ name, value, owner, scopeParent });\n    }\n    for (const { name, value } of sets) {\n      const current = _findInnermost(name);\n      if (current) current.value = value;\n      else _stack(name).push({ name, value, owner, scopeParent });\n    }\n    return touched;\n  }\n  function _counterPreWalk(el) {\n    const cs = window.getComputedStyle(el);\n    const touched = _applyCounterStyle(el, el.parentElement, cs);\n    const beforeStyle = window.getComputedStyle(el, \"::before\");\n    for (const name of _applyCounterStyle(el, el, beforeStyle)) touched.add(name);\n    const snapshots = { element: _snapshotCounters(), \"::before\": _snapshotCounters(), \"::after\": null };\n    for (const child of el.children) _counterPreWalk(child);\n    const afterStyle = window.getComputedStyle(el, \"::after\");\n    for (const name of _applyCounterStyle(el, el, afterStyle)) touched.add(name);\n    snapshots[\"::after\"] = _snapshotCounters();\n    _counterSnapshot.set(el, snapshots);\n    for (const name of touched) {\n      const stack = _stack(name);\n      if (stack.length < 2 || stack[stack.length - 1].owner !== el) continue;\n      const previous = stack[stack.length - 2].owner;\n      if (previous instanceof Element && previous.contains(el)) stack.pop();\n    }\n  }\n  _counterPreWalk(root);\n  _runCounterStylePrewalk();\n  const result = [];\n  const rootCs = window.getComputedStyle(root);\n  const rootHasBorder = (parseFloat(rootCs.borderTopWidth) || 0) > 0 || (parseFloat(rootCs.borderRightWidth) || 0) > 0 || (parseFloat(rootCs.borderBottomWidth) || 0) > 0 || (parseFloat(rootCs.borderLeftWidth) || 0) > 0;\n  const rootBg = rootCs.backgroundColor;\n  const rootBgImage = rootCs.backgroundImage;\n  const rootHasBgImage = rootBgImage != null && rootBgImage !== \"none\" && rootBgImage !== \"\";\n  const rootHasBg = rootBg != null && rootBg !== \"rgba(0, 0, 0, 0)\" && rootBg !== \"transparent\" || rootHasBgImage;\n  let rootHasDirectText = false;\n  for (const node of root.childNodes) {\n    if (node.nodeType === Node.TEXT_NODE && (node.textContent || \"\").trim() !== \"\") {\n      rootHasDirectText = true;\n      break;\n    }\n  }\n  if (rootHasBorder || rootHasBg || rootHasDirectText || _nonAffineProjectiveRoots.has(root)) {\n    const c = capture(root);\n    if (c) result.push(c);\n  } else {\n    for (const child of root.children) {\n      const c = capture(child);\n      if (c) result.push(c);\n    }\n  }\n  if (_maskDefs.size > 0 && result.length > 0) {\n    result[0].maskDefs = Array.from(_maskDefs.values());\n  }\n  if (_clipPathDefs.size > 0 && result.length > 0) {\n    result[0].clipPathDefs = Array.from(_clipPathDefs.values());\n  }\n  if (_filterDefs.size > 0 && result.length > 0) {\n    result[0].filterDefs = Array.from(_filterDefs.values());\n  }\n  if (_maskRasters.size > 0 && result.length > 0) {\n    var rasterArr = [];\n    for (var entry of _maskRasters.values()) {\n      if (entry != null) rasterArr.push(entry);\n    }\n    if (rasterArr.length > 0) result[0].maskRasters = rasterArr;\n  }\n  if (result.length > 0) {\n    try {\n      var _rootScrollbarOwner = document.scrollingElement;\n      var _rootScrollbarRecord = _rootScrollbarOwner != null && typeof args.sk === \"string\" && args.sk !== \"\" ? _rootScrollbarOwner[args.sk] : void 0;\n      if (_rootScrollbarRecord != null) result[0].rootScrollbars = _rootScrollbarRecord;\n      var _isDark = window.matchMedia(\"(prefers-color-scheme: dark)\").matches;\n      result[0].styles.rootColorScheme = _isDark ? \"dark\" : \"light\";\n      var _docCs = window.getComputedStyle(document.documentElement);\n      result[0].styles.rootBgComputed = _docCs.backgroundColor;\n      result[0].styles.rootOverflowX = _docCs.overflowX;\n      result[0].styles.rootOverflowY = _docCs.overflowY;\n    } catch (_e) {\n    }\n  }\n  return { tree: result, warnings: _warnings };\n};\nreturn ((args) => {\n  const colorNorm = createColorNorm();\n  try {\n    return captureDocumentTree(args, colorNorm);\n  } finally {\n    colorNorm.dispose();\n  }\n});\n})()\n";
diff --git a/src/capture/script/utils.ts b/src/capture/script/utils.ts
index c2c94ef..3f2c2e6 100644
--- a/src/capture/script/utils.ts
+++ b/src/capture/script/utils.ts
@@ -17,6 +17,11 @@ export const isUnsetCssValue = (v) =>
 // inverse of `isUnsetCssValue` — that tests the cascade keywords; this tests none/empty.
 export const hasCssValue = (v) => v != null && v !== '' && v !== 'none';
 
+// `outerHTML` is the HTML serialisation, which writes a no-break space as the
+// entity `&nbsp;`. The renderer emits the markup into an SVG document, and XML
+// knows no such entity, so name the character by number instead.
+export const xmlMarkup = (el) => el.outerHTML.replace(/&nbsp;/g, '&#160;');
+
 // Extract the url() target from a CSS image value (border-image-source,
 // mask-box-image-source, background-image, image-set candidate, …). Handles all
 // three url() forms — "...", '...', bare — anywhere in the value, and unescapes
diff --git a/src/capture/script/walker/inline-svg.ts b/src/capture/script/walker/inline-svg.ts
index 8f2b8e1..874b882 100644
--- a/src/capture/script/walker/inline-svg.ts
+++ b/src/capture/script/walker/inline-svg.ts
@@ -16,6 +16,7 @@ import {
   serializeSvgAffine,
   svgAffineMaxPointError,
 } from "../../svg-affine-freeze.js";
+import { xmlMarkup } from "../utils.js";
 
 export const captureInlineSvg = (el, cs, warn, sel) => {
       // Inline SVG icons styled by external CSS (e.g. '.icon-btn svg { fill:none;
@@ -615,5 +616,5 @@ export const captureInlineSvg = (el, cs, warn, sel) => {
       if (_affineFreezeFailure != null) {
         warn(sel, 'inline-svg', _affineFreezeFailure + '; promoted the outer inline SVG to Chromium raster ownership');
       }
-      return { content: clone.outerHTML, affineFreezeFailed: _affineFreezeFailure != null };
+      return { content: xmlMarkup(clone), affineFreezeFailed: _affineFreezeFailure != null };
 };
diff --git a/src/capture/script/walker/masks-clips.ts b/src/capture/script/walker/masks-clips.ts
index a8be539..6eccdea 100644
--- a/src/capture/script/walker/masks-clips.ts
+++ b/src/capture/script/walker/masks-clips.ts
@@ -40,7 +40,7 @@
 // captureScript orchestration tail reads `maskDefs` / `maskRasters` after
 // the walk completes and stamps them onto the root captured element.
 
-import { extractCssUrl } from "../utils.js";
+import { extractCssUrl, xmlMarkup } from "../utils.js";
 
 export const createMasksClipsHandler = ({ vp, warn }) => {
   const maskDefs = new Map();
@@ -105,7 +105,7 @@ export const createMasksClipsHandler = ({ vp, warn }) => {
       if (!maskDefs.has(fragId)) {
         const target = doc.getElementById(fragId);
         if (target != null && target.tagName.toLowerCase() === 'mask') {
-          maskDefs.set(fragId, { id: fragId, outerHTML: target.outerHTML });
+          maskDefs.set(fragId, { id: fragId, outerHTML: xmlMarkup(target) });
         } else {
           warn(sel, 'mask', 'mask-image fragment "#' + fragId + '" did not resolve to an inline <mask> element');
         }
@@ -228,7 +228,7 @@ export const createMasksClipsHandler = ({ vp, warn }) => {
           const units = (target.getAttribute('clipPathUnits') || 'userSpaceOnUse').toLowerCase();
           clipPathDefs.set(fragId, {
             id: fragId,
-            outerHTML: target.outerHTML,
+            outerHTML: xmlMarkup(target),
             clipPathUnits: units === 'objectboundingbox' ? 'objectBoundingBox' : 'userSpaceOnUse',
           });
         } else {
@@ -293,7 +293,7 @@ export const createMasksClipsHandler = ({ vp, warn }) => {
       const fragId = m[1];
       const target = doc.getElementById(fragId);
       if (target != null && target.tagName.toLowerCase() === 'filter') {
-        if (!filterDefs.has(fragId)) filterDefs.set(fragId, { id: fragId, outerHTML: target.outerHTML });
+        if (!filterDefs.has(fragId)) filterDefs.set(fragId, { id: fragId, outerHTML: xmlMarkup(target) });
         if (el.namespaceURI === 'http://www.w3.org/1999/xhtml'
             && filterContainsConvolveMatrix(target, new Set())) {
           needsSourceRaster = true;
-- 
2.43.0


From b42d64e57db29bee3f6dae69125d5f527736198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:30 +0000
Subject: [PATCH 29/44] fix: escape template colours in markup attributes

---
 src/templates/builtin/chart.ts   | 20 ++++++++++----------
 src/templates/builtin/compare.ts |  8 ++++----
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/templates/builtin/chart.ts b/src/templates/builtin/chart.ts
index 21b6853..f4ebec8 100644
--- a/src/templates/builtin/chart.ts
+++ b/src/templates/builtin/chart.ts
@@ -14,7 +14,7 @@ import type { Anims } from "../../cli/animate.js";
 import type { Template, TemplateOutput, TemplateRenderContext } from "../types.js";
 import { brandParams, brandBackground, brandSeriesColors, type Brand } from "../brand.js";
 import { formatScaleFactor, type SafeInset } from "../formats.js";
-import { escapeHtml } from "../../utils/escapeHtml.js";
+import { escapeAttr, escapeHtml } from "../../utils/escapeHtml.js";
 
 const CHART_TYPES = ["column", "bar", "line", "pie", "donut"] as const;
 export type ChartType = (typeof CHART_TYPES)[number];
@@ -357,10 +357,10 @@ export function buildChartHtml(p: ChartParams, plan: ChartPlan, inset?: SafeInse
     : isPie
       // Vertical legend down the right side (label + percentage).
       ? `<div class="ch-legend-v">${plan.legend
-          .map((l) => `<span class="ch-leg"><span class="ch-swatch" style="background:${l.color}"></span>${escapeHtml(l.name)}</span>`)
+          .map((l) => `<span class="ch-leg"><span class="ch-swatch" style="background:${escapeAttr(l.color)}"></span>${escapeHtml(l.name)}</span>`)
           .join("")}</div>`
       : `<div class="ch-legend" style="top:${p.title != null && p.title !== "" ? 56 : 16}px">${plan.legend
-          .map((l) => `<span class="ch-leg"><span class="ch-swatch" style="background:${l.color}"></span>${escapeHtml(l.name)}</span>`)
+          .map((l) => `<span class="ch-leg"><span class="ch-swatch" style="background:${escapeAttr(l.color)}"></span>${escapeHtml(l.name)}</span>`)
           .join("")}</div>`;
 
   const grid = plan.gridlines
@@ -376,15 +376,15 @@ export function buildChartHtml(p: ChartParams, plan: ChartPlan, inset?: SafeInse
   let body = "";
   if (isPie) {
     const paths = plan.slices
-      .map((s, i) => `<path class="ch-pie-slice ch-pie-slice-${i}" d="${s.path}" fill="${s.color}" stroke="${p.background}" stroke-width="2"/>`)
+      .map((s, i) => `<path class="ch-pie-slice ch-pie-slice-${i}" d="${s.path}" fill="${escapeAttr(s.color)}" stroke="${escapeAttr(p.background)}" stroke-width="2"/>`)
       .join("");
     body += `<div class="ch-pie-wrap"><svg width="${p.width}" height="${p.height}" viewBox="0 0 ${p.width} ${p.height}"><g class="ch-pie-group">${paths}</g></svg></div>`;
   } else if (plan.type === "line") {
     const svgInner = plan.lines
       .map((l) => {
-        const area = l.areaPath != null ? `<path d="${l.areaPath}" fill="${l.color}" opacity="0.14"/>` : "";
-        const dots = l.dots.map((d, i) => `<circle class="ch-dot ch-dot-${l.seriesIdx}-${i}" cx="${d.cx}" cy="${d.cy}" r="6" fill="${l.color}" stroke="${p.background}" stroke-width="3"/>`).join("");
-        return `<g class="ch-reveal ch-reveal-${l.seriesIdx}">${area}<polyline points="${l.points}" fill="none" stroke="${l.color}" stroke-width="4" stroke-linejoin="round" stroke-linecap="round"/>${dots}</g>`;
+        const area = l.areaPath != null ? `<path d="${l.areaPath}" fill="${escapeAttr(l.color)}" opacity="0.14"/>` : "";
+        const dots = l.dots.map((d, i) => `<circle class="ch-dot ch-dot-${l.seriesIdx}-${i}" cx="${d.cx}" cy="${d.cy}" r="6" fill="${escapeAttr(l.color)}" stroke="${escapeAttr(p.background)}" stroke-width="3"/>`).join("");
+        return `<g class="ch-reveal ch-reveal-${l.seriesIdx}">${area}<polyline points="${l.points}" fill="none" stroke="${escapeAttr(l.color)}" stroke-width="4" stroke-linejoin="round" stroke-linecap="round"/>${dots}</g>`;
       })
       .join("");
     body += `<div class="ch-line-wrap"><svg width="${p.width}" height="${p.height}" viewBox="0 0 ${p.width} ${p.height}">${svgInner}</svg></div>`;
@@ -393,8 +393,8 @@ export function buildChartHtml(p: ChartParams, plan: ChartPlan, inset?: SafeInse
       .map((st) => {
         const segs = st.segments
           .map((sg) => plan.type === "column"
-            ? `<div class="ch-seg" style="left:0;bottom:${sg.offset}px;width:100%;height:${sg.size}px;background:${sg.color}"></div>`
-            : `<div class="ch-seg" style="top:0;left:${sg.offset}px;height:100%;width:${sg.size}px;background:${sg.color}"></div>`)
+            ? `<div class="ch-seg" style="left:0;bottom:${sg.offset}px;width:100%;height:${sg.size}px;background:${escapeAttr(sg.color)}"></div>`
+            : `<div class="ch-seg" style="top:0;left:${sg.offset}px;height:100%;width:${sg.size}px;background:${escapeAttr(sg.color)}"></div>`)
           .join("");
         return `<div class="ch-stack ch-stack-${st.catIdx}" style="left:${st.left}px;top:${st.top}px;width:${st.width}px;height:${st.height}px">${segs}</div>`;
       })
@@ -405,7 +405,7 @@ export function buildChartHtml(p: ChartParams, plan: ChartPlan, inset?: SafeInse
         const anchor = plan.type === "column"
           ? `left:${b.left}px;bottom:${p.height - (plan.plot.y + plan.plot.h)}px;width:${b.width}px;height:${b.height}px`
           : `left:${b.left}px;top:${b.top}px;width:${b.width}px;height:${b.height}px`;
-        return `<div class="ch-bar ch-bar-${i}" style="${anchor};background:${b.color}"></div>`;
+        return `<div class="ch-bar ch-bar-${i}" style="${anchor};background:${escapeAttr(b.color)}"></div>`;
       })
       .join("\n  ");
   }
diff --git a/src/templates/builtin/compare.ts b/src/templates/builtin/compare.ts
index b292de4..b94d788 100644
--- a/src/templates/builtin/compare.ts
+++ b/src/templates/builtin/compare.ts
@@ -17,7 +17,7 @@ import { join, resolve, extname } from "node:path";
 import { z } from "zod";
 import { composeAnimatedLayers, type CompositeLayerAnimation } from "../../animation/index.js";
 import type { Template, TemplateOutput, TemplateRenderContext } from "../types.js";
-import { escapeHtml } from "../../utils/escapeHtml.js";
+import { esc } from "../../render/format.js";
 import { formatScaleFactor, type SafeInset } from "../formats.js";
 
 const MODES = ["wipe", "slide"] as const;
@@ -120,7 +120,7 @@ export function compareOverlayMarkup(p: CompareParams, safeInset?: SafeInset): s
     const cx = bx + bw / 2;
     const baseline = by + bh / 2 + fontSize * 0.34; // vertical-center the cap height
     const txt = (t: string, cls: string): string =>
-      `<text class="${cls}" x="${cx.toFixed(1)}" y="${baseline.toFixed(1)}" fill="#fff" font-family="${escapeHtml(p.fontFamily)}" font-size="${fontSize}" font-weight="600" text-anchor="middle">${escapeHtml(t)}</text>`;
+      `<text class="${cls}" x="${cx.toFixed(1)}" y="${baseline.toFixed(1)}" fill="#fff" font-family="${esc(p.fontFamily)}" font-size="${fontSize}" font-weight="600" text-anchor="middle">${esc(t)}</text>`;
 
     if (before != null && after != null) {
       // Swap the text with a SHORT crossfade centered on the reveal's midpoint, so
@@ -166,13 +166,13 @@ function dividerMarkup(p: CompareParams): string {
     const toX = p.direction === "right" ? W : 0;
     return `<style>@keyframes ${name}{0%{transform:translateX(${fromX}px)}${endPct.toFixed(2)}%,100%{transform:translateX(${toX}px)}}`
       + `.${name}{animation:${anim}}</style>`
-      + `<rect class="${name}" x="-3" y="0" width="6" height="${H}" fill="${p.accent}"/>`;
+      + `<rect class="${name}" x="-3" y="0" width="6" height="${H}" fill="${esc(p.accent)}"/>`;
   }
   const fromY = p.direction === "down" ? 0 : H;
   const toY = p.direction === "down" ? H : 0;
   return `<style>@keyframes ${name}{0%{transform:translateY(${fromY}px)}${endPct.toFixed(2)}%,100%{transform:translateY(${toY}px)}}`
     + `.${name}{animation:${anim}}</style>`
-    + `<rect class="${name}" x="0" y="-3" width="${W}" height="6" fill="${p.accent}"/>`;
+    + `<rect class="${name}" x="0" y="-3" width="${W}" height="6" fill="${esc(p.accent)}"/>`;
 }
 
 export const compareTemplate: Template<CompareParams> = {
-- 
2.43.0


From af427ae0915d17e8dc0612f2bfb794c3fb5d5eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:30 +0000
Subject: [PATCH 30/44] fix: escape configured colours, easings and origins in
 SVG attributes and style

---
 src/animation/animator.ts         | 16 ++++++++--------
 src/animation/caret-track.ts      |  7 ++++---
 src/animation/composite.ts        | 10 ++++++----
 src/animation/compressed-run.ts   |  2 +-
 src/animation/cursor-glyphs.ts    |  6 ++++--
 src/animation/cursor-overlay.ts   |  7 ++++---
 src/animation/shine.ts            |  8 +++++---
 src/cli/type-resample.ts          |  3 ++-
 src/render/element-tree-to-svg.ts |  2 +-
 src/render/format.ts              | 10 ++++++++++
 src/render/text-to-path.ts        |  8 ++++----
 src/scroll/composer.ts            |  6 +++---
 src/terminal/incremental.ts       |  3 ++-
 13 files changed, 54 insertions(+), 34 deletions(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index f3a4ddb..d1471a5 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -14,7 +14,7 @@ import type { MagicMove } from "./magic-move.js";
 import type { AnimationOverlay, TypingOverlay, TapOverlay, SvgOverlay, BlinkOverlay, ShineOverlay, InteractOverlay, IntraFrameAnimation } from "./overlay-schema.js";
 import { escapeHtml } from "../utils/escapeHtml.js";
 import { isTransparentBackground } from "../utils/transparent-background.js";
-import { rootSvgA11y } from "../render/format.js";
+import { esc, escCss, rootSvgA11y } from "../render/format.js";
 import { getFontInstance, resolveFontKey, withRenderTextMode, glyphDefCount, getGlyphDefsSince, truncateGlyphDefs, beginCharacterFallbackDocument, endCharacterFallbackDocument } from "../render/font-resolution.js";
 import { renderTextAsPath } from "../render/text-to-path.js";
 import { DEFAULT_TRANSITION_MS, frameAdvanceMs, transitionDurationMs } from "./frame-timeline.js";
@@ -1692,7 +1692,7 @@ function generateAnimatedSvgBody(config: AnimationConfig): string {
   // host page, matching the single-frame `transparentRootBgRect` path (DM-554).
   const bg = config.background;
   const canvasBgRect = (bg != null && !isTransparentBackground(bg))
-    ? `  <rect width="${width}" height="${height}" fill="${bg}" />\n`
+    ? `  <rect width="${width}" height="${height}" fill="${esc(bg)}" />\n`
     : "";
   const a11y = rootSvgA11y(config.title, config.desc);
   // DM-1557: glyph-path defs the typing overlays registered while rendering
@@ -1709,7 +1709,7 @@ function generateAnimatedSvgBody(config: AnimationConfig): string {
   <style>
 ${config.fontFaceCss != null && config.fontFaceCss !== "" ? config.fontFaceCss + "\n" : ""}    :root { --scene-dur: ${totalSec.toFixed(2)}s; }
     .f { opacity: 0; visibility: hidden; }
-    ${keyframes.join("\n")}${animationCss}${cullCss === "" ? "" : "\n" + cullCss}
+    ${escCss(keyframes.join("\n") + animationCss)}${cullCss === "" ? "" : "\n" + cullCss}
   </style>
   <g clip-path="url(#viewport-clip)">
 ${canvasBgRect}${frameGroups.join("\n")}${shineTransitionGroups.length > 0 ? "\n" + shineTransitionGroups.join("\n") : ""}${textTrackMarkupStr}${overlayMarkup}
@@ -2237,7 +2237,7 @@ function buildTypingCaret(
     // pre-DM-1591), while a block/underscore cell width keeps up to 2 decimals.
     const caretWidthStr = Number(cRect.width.toFixed(2)).toString();
     parts.push(
-      `  <rect class="${id}-caret" x="${overlay.x}" y="${cRect.y.toFixed(2)}" width="${caretWidthStr}" height="${cRect.height}" fill="${caretColor}"${caretOpacity} />`,
+      `  <rect class="${id}-caret" x="${overlay.x}" y="${cRect.y.toFixed(2)}" width="${caretWidthStr}" height="${cRect.height}" fill="${esc(caretColor)}"${caretOpacity} />`,
     );
     // The position track is step-end (per-keystroke jumps, matching real typing
     // and the discrete reveal); the blink is step-end too.
@@ -2407,7 +2407,7 @@ function renderTypingOverlay(
     const bgH = Math.max(overlay.mask?.height ?? overlay.bgHeight ?? fontSize + 6, lines.length * lineHeight + 6);
     const bgStartPct = pct(typeStartMs, totalDuration);
     parts.push(
-      `  <rect class="${id}-bg" x="${overlay.x - 2}" y="${overlay.y - fontSize + 2}" width="${bgW}" height="${bgH}" fill="${maskColor}" rx="2" />`,
+      `  <rect class="${id}-bg" x="${overlay.x - 2}" y="${overlay.y - fontSize + 2}" width="${bgW}" height="${bgH}" fill="${esc(maskColor)}" rx="2" />`,
     );
     cssRules.push(`
     @keyframes ${id}-bg { 0%, ${bgStartPct} { opacity: 0; } ${pct(typeStartMs + 50, totalDuration)} { opacity: 1; } ${holdEndPct} { opacity: 1;${holdAtf} } ${disappearPct}, 100% { opacity: 0; } }
@@ -2564,7 +2564,7 @@ function renderBlinkOverlay(
   stops.push(`${pct(frameEnd, totalDuration)}, 100% { opacity: 0; }`);
 
   const opacityAttr = overlay.fillOpacity != null && overlay.fillOpacity < 1 ? ` fill-opacity="${overlay.fillOpacity}"` : "";
-  const svgMarkup = `  <rect class="${id}" x="${overlay.x}" y="${overlay.y}" width="${overlay.width}" height="${overlay.height}"${radiusAttr} fill="${color}"${opacityAttr} />`;
+  const svgMarkup = `  <rect class="${id}" x="${overlay.x}" y="${overlay.y}" width="${overlay.width}" height="${overlay.height}"${radiusAttr} fill="${esc(color)}"${opacityAttr} />`;
   const css = `
     @keyframes ${id} { ${stops.join(" ")} }
     .${id} { animation: ${id} ${totalSec.toFixed(2)}s step-end infinite; }`;
@@ -2628,12 +2628,12 @@ function renderInteractOverlay(
 
   const layers: string[] = [];
   if (fill !== "none") {
-    layers.push(`    <rect x="${overlay.x}" y="${overlay.y}" width="${overlay.width}" height="${overlay.height}"${rAttr} fill="${fill}" fill-opacity="${fillOpacity}" />`);
+    layers.push(`    <rect x="${overlay.x}" y="${overlay.y}" width="${overlay.width}" height="${overlay.height}"${rAttr} fill="${esc(fill)}" fill-opacity="${fillOpacity}" />`);
   }
   if (ring != null && ring !== "none") {
     // Inset by half the stroke so the ring stays inside the region's bounds.
     const hw = ringWidth / 2;
-    layers.push(`    <rect x="${overlay.x + hw}" y="${overlay.y + hw}" width="${Math.max(0, overlay.width - ringWidth)}" height="${Math.max(0, overlay.height - ringWidth)}"${rAttr} fill="none" stroke="${ring}" stroke-width="${ringWidth}" />`);
+    layers.push(`    <rect x="${overlay.x + hw}" y="${overlay.y + hw}" width="${Math.max(0, overlay.width - ringWidth)}" height="${Math.max(0, overlay.height - ringWidth)}"${rAttr} fill="none" stroke="${esc(ring)}" stroke-width="${ringWidth}" />`);
   }
   const svgMarkup = `  <g class="${id}">\n${layers.join("\n")}\n  </g>`;
 
diff --git a/src/animation/caret-track.ts b/src/animation/caret-track.ts
index 4da8e03..a92bb95 100644
--- a/src/animation/caret-track.ts
+++ b/src/animation/caret-track.ts
@@ -39,6 +39,7 @@
  * (docs/100, Primitive 1), which owns the glyphs and can interleave layers.
  */
 
+import { esc } from "../render/format.js";
 import type { CapturedElement } from "../capture/types.js";
 import { caretShapeRect, BLOCK_CARET_ALPHA, DEFAULT_CARET_WIDTH_PX, type CaretShape } from "./caret-metrics.js";
 import { resolveCaretPoint, resolveRangeRects, findAddressedElement, type CaretPoint, type SelectionRectPlan, type TextAddressTarget } from "./text-address.js";
@@ -387,7 +388,7 @@ function caretMarkup(track: ResolvedTextTrack, uid: string, kf: string[], totalD
   const blinkSec = track.blinkMs / 1000;
 
   const fillOpacity = base.opacity < 1 ? ` fill-opacity="${base.opacity}"` : "";
-  return `    <g class="tt-vis" opacity="0" style="animation:${visName} ${totalSec.toFixed(2)}s step-end infinite"><g class="tt-pos" style="animation:${posName} ${totalSec.toFixed(2)}s step-end infinite"><rect class="tt-caret" width="${num(base.width)}" height="${num(base.height)}" fill="${track.color}"${fillOpacity} style="animation:${blinkName} ${blinkSec}s step-end infinite"/></g></g>`;
+  return `    <g class="tt-vis" opacity="0" style="animation:${visName} ${totalSec.toFixed(2)}s step-end infinite"><g class="tt-pos" style="animation:${posName} ${totalSec.toFixed(2)}s step-end infinite"><rect class="tt-caret" width="${num(base.width)}" height="${num(base.height)}" fill="${esc(track.color)}"${fillOpacity} style="animation:${blinkName} ${blinkSec}s step-end infinite"/></g></g>`;
 }
 
 /**
@@ -466,7 +467,7 @@ function invertedCaretMarkup(track: ResolvedTextTrack, uid: string, kf: string[]
     // this standalone repaint doesn't reproduce (docs/101 Limits).
     const degraded = glyphMarkup === "" && (cg != null || wp.point.vertical != null);
     const blockOpacity = degraded ? ` fill-opacity="${BLOCK_CARET_ALPHA}"` : "";
-    const block = `<rect class="tt-caret" x="${num(g.x)}" y="${num(g.y)}" width="${num(g.width)}" height="${num(g.height)}" fill="${track.color}"${blockOpacity}/>`;
+    const block = `<rect class="tt-caret" x="${num(g.x)}" y="${num(g.y)}" width="${num(g.width)}" height="${num(g.height)}" fill="${esc(track.color)}"${blockOpacity}/>`;
     layers.push(`      <g class="tt-ivis" opacity="${onAtZero ? 1 : 0}" style="animation:${visName} ${totalSec.toFixed(2)}s step-end infinite">${block}${glyphMarkup}</g>`);
   }
 
@@ -571,7 +572,7 @@ function selectionMarkup(sel: ResolvedSelection, si: number, uid: string, kf: st
     const size = vertical
       ? `width="${num(rect.width)}" height="0.01"`
       : `width="0.01" height="${num(rect.height)}"`;
-    parts.push(`    <rect class="tt-sel" ${place} ${size} fill="${sel.color}" style="animation:${name} ${totalSec.toFixed(2)}s ${timing} infinite"/>`);
+    parts.push(`    <rect class="tt-sel" ${place} ${size} fill="${esc(sel.color)}" style="animation:${name} ${totalSec.toFixed(2)}s ${timing} infinite"/>`);
     sweptBefore += rect.edges.length;
   }
   return parts.join("\n");
diff --git a/src/animation/composite.ts b/src/animation/composite.ts
index 924671d..5a20a05 100644
--- a/src/animation/composite.ts
+++ b/src/animation/composite.ts
@@ -30,6 +30,7 @@
  * own wrapper group, separate from the nested content's animations.
  */
 
+import { esc, escCss } from "../render/format.js";
 import { isTransparentBackground } from "../utils/transparent-background.js";
 import { findFillBoxInClipOrMask } from "../post-processing/clip-transform-safety.js";
 import { namespaceEmbeddedAnimatedSvg } from "./embed-namespace.js";
@@ -287,7 +288,7 @@ export function composeAnimatedLayers(layers: CompositeLayer[], opts: ComposeLay
       if (a.property !== "opacity" && transformOrigin == null) transformOrigin = a.transformOrigin ?? "0 0";
     });
     const groupStyle = groupDecls.length > 0
-      ? ` style="${transformOrigin != null ? `transform-box:fill-box;transform-origin:${transformOrigin};` : ""}animation:${groupDecls.join(",")}"`
+      ? ` style="${transformOrigin != null ? `transform-box:fill-box;transform-origin:${esc(transformOrigin)};` : ""}animation:${esc(groupDecls.join(","))}"`
       : "";
 
     // 5. clipScaleX/Y — resize the layer's visible BOX (not its contents) by
@@ -328,9 +329,10 @@ export function composeAnimatedLayers(layers: CompositeLayer[], opts: ComposeLay
 
   // Transparent (no backdrop rect) for every transparent CSS form — keywords,
   // zero-alpha hex, zero-alpha rgba()/hsla() — via the canonical predicate.
-  const bg = isTransparentBackground(opts.background ?? "")
+  const background = opts.background ?? "";
+  const bg = isTransparentBackground(background)
     ? ""
-    : `<rect width="${width}" height="${height}" fill="${opts.background}"/>`;
+    : `<rect width="${width}" height="${height}" fill="${esc(background)}"/>`;
 
   const defs = defsParts.join("");
   // DM-1331: the shared embedded-font block for `deferFonts` layers goes first in
@@ -340,7 +342,7 @@ export function composeAnimatedLayers(layers: CompositeLayer[], opts: ComposeLay
   let svg =
     `<svg xmlns="http://www.w3.org/2000/svg" width="${width}" height="${height}" viewBox="0 0 ${width} ${height}">` +
     (defs ? `<defs>${defs}</defs>` : "") +
-    (styleInner !== "" ? `<style>${styleInner}</style>` : "") +
+    (styleInner !== "" ? `<style>${escCss(styleInner)}</style>` : "") +
     bg +
     groups.join("") +
     `</svg>`;
diff --git a/src/animation/compressed-run.ts b/src/animation/compressed-run.ts
index 5a3de25..cc42958 100644
--- a/src/animation/compressed-run.ts
+++ b/src/animation/compressed-run.ts
@@ -103,6 +103,7 @@
  * internal renders).
  */
 
+import { esc } from "../render/format.js";
 import type { CapturedElement, TextSegment } from "../capture/types.js";
 import { elementTreeToSvgInner } from "../render/element-tree-to-svg.js";
 import { paintOrderHitSequence } from "../render/paint-order.js";
@@ -1390,7 +1391,6 @@ export function buildCompressedRunPlan(
 
 // ── Composition ─────────────────────────────────────────────────────────────
 
-const esc = (s: string): string => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;").replace(/"/g, "&quot;");
 
 /**
  * Compose N captured continue+cut states into one nested animated SVG. See
diff --git a/src/animation/cursor-glyphs.ts b/src/animation/cursor-glyphs.ts
index 640e389..75e3f88 100644
--- a/src/animation/cursor-glyphs.ts
+++ b/src/animation/cursor-glyphs.ts
@@ -20,6 +20,8 @@
  * picks a glyph per captured `cursor` value and animates its position.
  */
 
+import { esc } from "../render/format.js";
+
 /** A glyph authored in the Lucide 24×24 box. */
 export interface CursorGlyph {
   /** Inner SVG markup (paths/lines/circles) in the 24×24 Lucide coordinate box. */
@@ -149,8 +151,8 @@ export function cursorGlyphSvg(value: string, x: number, y: number, size = 22, c
   const rot = g.rotate ? ` rotate(${g.rotate} 12 12)` : "";
   const inner = g.fill
     // Filled silhouette: white fill + dark outline (classic arrow look).
-    ? `<g fill="${fill}" stroke="${color}" stroke-width="1.4" stroke-linejoin="round">${g.body}</g>`
+    ? `<g fill="${esc(fill)}" stroke="${esc(color)}" stroke-width="1.4" stroke-linejoin="round">${g.body}</g>`
     // Line-art: white halo stroke under the dark stroke.
-    : `<g fill="none" stroke-linecap="round" stroke-linejoin="round"><g stroke="${fill}" stroke-width="3.4">${g.body}</g><g stroke="${color}" stroke-width="1.7">${g.body}</g></g>`;
+    : `<g fill="none" stroke-linecap="round" stroke-linejoin="round"><g stroke="${esc(fill)}" stroke-width="3.4">${g.body}</g><g stroke="${esc(color)}" stroke-width="1.7">${g.body}</g></g>`;
   return `<g transform="translate(${tx.toFixed(2)} ${ty.toFixed(2)}) scale(${s.toFixed(4)})"><g transform="${rot.trim() || "translate(0 0)"}">${inner}</g></g>`;
 }
diff --git a/src/animation/cursor-overlay.ts b/src/animation/cursor-overlay.ts
index de3eb6a..d52ae7d 100644
--- a/src/animation/cursor-overlay.ts
+++ b/src/animation/cursor-overlay.ts
@@ -27,6 +27,7 @@
  * See docs/13-cursor-overlay.md for the design.
  */
 
+import { esc } from "../render/format.js";
 import type { CapturedElement } from "../capture/types.js";
 import { hitTestTopmost } from "../render/paint-order.js";
 import { cursorGlyphSvg } from "./cursor-glyphs.js";
@@ -452,8 +453,8 @@ function buildPulseFragment(c: ResolvedClick, idx: number, uid: string, kf: stri
     <path d="${halfPath}" fill="rgba(0,0,0,0.2)" opacity="0" style="animation:${halfName} ${totalSec}s linear infinite" />`;
   }
   return `    <g class="cursor-click cursor-click-${idx}">
-      <circle cx="${num(c.x)}" cy="${num(c.y)}" r="${r0}" fill="none" stroke="${c.style.pulseStrokeOuter}" stroke-width="2" opacity="0" style="${ringStyle(outerName)}" />
-      <circle cx="${num(c.x)}" cy="${num(c.y)}" r="${r0}" fill="none" stroke="${c.style.pulseStroke}" stroke-width="1" opacity="0" style="${ringStyle(innerName)}" />${secondaryHalf}
+      <circle cx="${num(c.x)}" cy="${num(c.y)}" r="${r0}" fill="none" stroke="${esc(c.style.pulseStrokeOuter)}" stroke-width="2" opacity="0" style="${ringStyle(outerName)}" />
+      <circle cx="${num(c.x)}" cy="${num(c.y)}" r="${r0}" fill="none" stroke="${esc(c.style.pulseStroke)}" stroke-width="1" opacity="0" style="${ringStyle(innerName)}" />${secondaryHalf}
     </g>`;
 }
 
@@ -464,7 +465,7 @@ function macosCursorPath(scale: number, fill: string): string {
   // reads on any background.
   const d = "M 0 0 L 0 16 L 4 12 L 7 18 L 9 17 L 6 11 L 12 11 Z";
   const transform = scale !== 1 ? ` transform="scale(${num(scale)})"` : "";
-  return `<path d="${d}" fill="${fill}" stroke="rgb(0,0,0)" stroke-width="1" stroke-linejoin="round"${transform} />`;
+  return `<path d="${d}" fill="${esc(fill)}" stroke="rgb(0,0,0)" stroke-width="1" stroke-linejoin="round"${transform} />`;
 }
 
 function num(n: number): string {
diff --git a/src/animation/shine.ts b/src/animation/shine.ts
index 6a40297..a9d7a7c 100644
--- a/src/animation/shine.ts
+++ b/src/animation/shine.ts
@@ -22,6 +22,8 @@
  * can't double-transform it.
  */
 
+import { esc } from "../render/format.js";
+
 /** Accepts a numeric percent (`12.5`) or a percent string (`"12.5%"`). */
 export type Pctish = number | string;
 
@@ -138,9 +140,9 @@ export function buildShineSweep(opts: ShineSweepOptions): ShineSweepResult {
   const markup = `  <defs>
     <clipPath id="${clipId}"><rect x="${x}" y="${y}" width="${width}" height="${height}"${clipRxAttr} /></clipPath>
     <linearGradient id="${gradId}" x1="0" y1="0" x2="1" y2="0">
-      <stop offset="0" stop-color="${color}" stop-opacity="0" />
-      <stop offset="0.5" stop-color="${color}" stop-opacity="${peak}" />
-      <stop offset="1" stop-color="${color}" stop-opacity="0" />
+      <stop offset="0" stop-color="${esc(color)}" stop-opacity="0" />
+      <stop offset="0.5" stop-color="${esc(color)}" stop-opacity="${peak}" />
+      <stop offset="1" stop-color="${esc(color)}" stop-opacity="0" />
     </linearGradient>
   </defs>
   <g clip-path="url(#${clipId})">
diff --git a/src/cli/type-resample.ts b/src/cli/type-resample.ts
index 1802f70..9dce549 100644
--- a/src/cli/type-resample.ts
+++ b/src/cli/type-resample.ts
@@ -24,6 +24,7 @@
  * being the default.
  */
 
+import { esc } from "../render/format.js";
 import type { Page } from "@playwright/test";
 import type { AnimationFrame, AnimationOverlay } from "../animation/index.js";
 import type { BlinkOverlay } from "../animation/overlay-schema.js";
@@ -349,7 +350,7 @@ export async function buildTypeResampleAnimation(
   if (spec.regionOnly) {
     // Static base UNDER the animated field flipbook (a nested <svg>), + the root
     // background so the transparent overlay reads on the right canvas color.
-    const bgRect = rootBg != null ? `<rect width="${width}" height="${height}" fill="${rootBg}" />` : "";
+    const bgRect = rootBg != null ? `<rect width="${width}" height="${height}" fill="${esc(rootBg)}" />` : "";
     const svgContent = `<svg xmlns="http://www.w3.org/2000/svg" width="${width}" height="${height}" viewBox="0 0 ${width} ${height}">${bgRect}${baseInner}${flipbook}</svg>`;
     return { svgContent, periodMs, rootBg };
   }
diff --git a/src/render/element-tree-to-svg.ts b/src/render/element-tree-to-svg.ts
index 3b87c3a..7034ff9 100644
--- a/src/render/element-tree-to-svg.ts
+++ b/src/render/element-tree-to-svg.ts
@@ -214,7 +214,7 @@ export function transparentRootBgRect(elements: CapturedElement[], width: number
   if (rootBg == null || rootBg === "" || rootBg === "rgba(0, 0, 0, 0)" || rootBg === "transparent") {
     return "";
   }
-  return `<rect width="${width}" height="${height}" fill="${rootBg}" />`;
+  return `<rect width="${width}" height="${height}" fill="${esc(rootBg)}" />`;
 }
 
 /**
diff --git a/src/render/format.ts b/src/render/format.ts
index 53ff321..69cb31d 100644
--- a/src/render/format.ts
+++ b/src/render/format.ts
@@ -3,6 +3,7 @@
  *
  * - `r(n)`   — one-decimal-place number formatter for SVG coordinates / sizes.
  * - `esc(s)` — escape an arbitrary string for use as SVG attribute text.
+ * - `escCss(s)` — escape CSS as the text of an SVG `<style>` element.
  * - `stopFmt(n)` — four-decimal-place number formatter for gradient stop offsets
  *   (the extra precision keeps multi-stop gradients from snapping).
  */
@@ -50,6 +51,15 @@ export function esc(s: string): string {
     .replace(/"/g, "&quot;");
 }
 
+/**
+ * Escape CSS for a `<style>` element in SVG. Like any other XML text it is parsed
+ * before the CSS is, so a `&` or `<` in a configured value would otherwise end the
+ * document; quotes and `>` keep their CSS meaning and need no escape.
+ */
+export function escCss(css: string): string {
+  return css.replace(XML_ILLEGAL, "").replace(/&/g, "&amp;").replace(/</g, "&lt;");
+}
+
 export function stopFmt(n: number): string {
   return Number(n.toFixed(4)).toString();
 }
diff --git a/src/render/text-to-path.ts b/src/render/text-to-path.ts
index 8dc287e..1714aee 100644
--- a/src/render/text-to-path.ts
+++ b/src/render/text-to-path.ts
@@ -3456,7 +3456,7 @@ export function renderTextAsPath(
     ? ""
     : ` data-domotion-text-owner="source-partial" data-domotion-text-degraded-spans="${esc(result.ownership.degradedGlyphs.map((item) =>
       `${item.sourceSpan[0]}-${item.sourceSpan[1]}:${item.glyphId}:${item.disposition}`).join(","))}"`;
-  return `<g transform="translate(${r2(x)},${r2(baselineY)})${shear}" fill="${fill}" role="img" aria-label="${esc(text)}"${degradedAttr}><title>${esc(text)}</title>${result.markup}</g>`;
+  return `<g transform="translate(${r2(x)},${r2(baselineY)})${shear}" fill="${esc(fill)}" role="img" aria-label="${esc(text)}"${degradedAttr}><title>${esc(text)}</title>${result.markup}</g>`;
 }
 
 /**
@@ -3935,7 +3935,7 @@ export function renderStretchyFenceGlyph(
   const ty = boxY + sy * bbox.maxY;
   const sxStr = Number(sx.toFixed(5)).toString();
   const syStr = Number((-sy).toFixed(5)).toString();
-  return `<g transform="translate(${r2(x)},${r2(ty)}) scale(${sxStr},${syStr})" fill="${fill}"><use href="#${defId}"/></g>`;
+  return `<g transform="translate(${r2(x)},${r2(ty)}) scale(${sxStr},${syStr})" fill="${escAttr(fill)}"><use href="#${defId}"/></g>`;
 }
 
 /**
@@ -4014,7 +4014,7 @@ export function renderRadicalGlyph(
   const ty = overbarY + s * bbox.maxY;
   const sStr = Number(s.toFixed(5)).toString();
   const negS = Number((-s).toFixed(5)).toString();
-  const glyphMarkup = `<g transform="translate(${r2(tx)},${r2(ty)}) scale(${sStr},${negS})" fill="${fill}"><use href="#${defId}"/></g>`;
+  const glyphMarkup = `<g transform="translate(${r2(tx)},${r2(ty)}) scale(${sStr},${negS})" fill="${escAttr(fill)}"><use href="#${defId}"/></g>`;
 
   // Overbar (vinculum): continue the glyph's top stub across the radicand to
   // the radical's right edge, at the SAME y the glyph ink-top was anchored to
@@ -4025,7 +4025,7 @@ export function renderRadicalGlyph(
   const overbarRight = x + width;
   let overbar = "";
   if (overbarRight > glyphRight) {
-    overbar = `<rect x="${r2(glyphRight)}" y="${r2(overbarY)}" width="${r2(overbarRight - glyphRight)}" height="1" fill="${fill}"/>`;
+    overbar = `<rect x="${r2(glyphRight)}" y="${r2(overbarY)}" width="${r2(overbarRight - glyphRight)}" height="1" fill="${escAttr(fill)}"/>`;
   }
   return glyphMarkup + overbar;
 }
diff --git a/src/scroll/composer.ts b/src/scroll/composer.ts
index 13f692b..8bcd61b 100644
--- a/src/scroll/composer.ts
+++ b/src/scroll/composer.ts
@@ -23,7 +23,7 @@
 
 import type { ScrollSegmentCapture } from "./executor.js";
 import { elementTreeToSvgInner } from "../render/element-tree-to-svg.js";
-import { rootSvgA11y } from "../render/format.js";
+import { esc, rootSvgA11y } from "../render/format.js";
 import { isTransparentBackground } from "../utils/transparent-background.js";
 import {
   resetGeneration,
@@ -494,10 +494,10 @@ ${stickyCullCss.join("\n")}
       }
     </style>
   </defs>
-${paintBg ? `  <rect width="${W}" height="${VH}" fill="${bg}"/>\n` : ""}  <g clip-path="url(#${animClass}-clip)">
+${paintBg ? `  <rect width="${W}" height="${VH}" fill="${esc(bg ?? "")}"/>\n` : ""}  <g clip-path="url(#${animClass}-clip)">
     <g class="${animClass}">
       <svg x="0" y="0" width="${compositeW}" height="${compositeH}" viewBox="0 0 ${compositeW} ${compositeH}">
-${paintBg ? `        <rect width="${compositeW}" height="${compositeH}" fill="${bg}"/>\n` : ""}      ${chunks.join("\n      ")}
+${paintBg ? `        <rect width="${compositeW}" height="${compositeH}" fill="${esc(bg ?? "")}"/>\n` : ""}      ${chunks.join("\n      ")}
       </svg>
     </g>
   </g>${overlayMarkup}
diff --git a/src/terminal/incremental.ts b/src/terminal/incremental.ts
index ff024a3..34f0eed 100644
--- a/src/terminal/incremental.ts
+++ b/src/terminal/incremental.ts
@@ -22,6 +22,7 @@
  * line ends when it leaves the tracked set.
  */
 
+import { esc } from "../render/format.js";
 import type { Browser } from "@playwright/test";
 import { parseCast } from "./cast.js";
 import { TerminalEmulator, type TermCell } from "./emulator.js";
@@ -298,7 +299,7 @@ function buildCursor(
     `.tcur-p{animation:tcurp ${durSec}s linear infinite}`,
     `.tcur-b{animation:tcurb 1.06s step-end infinite}`,
   ].join("\n");
-  const markup = `<g class="tcur-v"><g class="tcur-p"><rect class="tcur-b" x="${rx.toFixed(2)}" y="${ry.toFixed(2)}" width="${rw.toFixed(2)}" height="${rh.toFixed(2)}" fill="${color}" fill-opacity="${shape === "block" ? 0.7 : 1}"/></g></g>`;
+  const markup = `<g class="tcur-v"><g class="tcur-p"><rect class="tcur-b" x="${rx.toFixed(2)}" y="${ry.toFixed(2)}" width="${rw.toFixed(2)}" height="${rh.toFixed(2)}" fill="${esc(color)}" fill-opacity="${shape === "block" ? 0.7 : 1}"/></g></g>`;
   return { markup, css };
 }
 
-- 
2.43.0


From 8c9746be8357e6c1649fe7f18e8bb9cbfd0930c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:52 +0000
Subject: [PATCH 31/44] fix: form-control fills extracted from page CSS are
 escaped

---
 src/render/form-controls.ts | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/render/form-controls.ts b/src/render/form-controls.ts
index 81ef769..e3127d2 100644
--- a/src/render/form-controls.ts
+++ b/src/render/form-controls.ts
@@ -1340,10 +1340,10 @@ function renderProgress(el: CapturedElement, indent: string, defCtx?: DefCtx): s
   // are the fallback. The <rect>s use the shared rects so the conic tile (keyed
   // by rect size) lines up with what's painted.
   const trackGrad = gradientFillFor(el.styles.progressBarBgImage, trackRect, defCtx);
-  parts.push(`${indent}<rect x="${r(trackRect.x)}" y="${r(trackRect.y)}" width="${r(trackRect.w)}" height="${r(trackRect.h)}" rx="${r(trackRadius)}" fill="${trackGrad ?? trackFill}" />`);
+  parts.push(`${indent}<rect x="${r(trackRect.x)}" y="${r(trackRect.y)}" width="${r(trackRect.w)}" height="${r(trackRect.h)}" rx="${r(trackRadius)}" fill="${esc(trackGrad ?? trackFill)}" />`);
   if (valueRect != null) {
     const valueGrad = gradientFillFor(el.styles.progressValueBgImage, valueRect, defCtx);
-    parts.push(`${indent}<rect x="${r(valueRect.x)}" y="${r(valueRect.y)}" width="${r(valueRect.w)}" height="${r(valueRect.h)}" rx="${r(valueRadius)}" fill="${valueGrad ?? valueFill}" />`);
+    parts.push(`${indent}<rect x="${r(valueRect.x)}" y="${r(valueRect.y)}" width="${r(valueRect.w)}" height="${r(valueRect.h)}" rx="${r(valueRadius)}" fill="${esc(valueGrad ?? valueFill)}" />`);
   }
   return parts.join("\n");
 }
@@ -1425,7 +1425,7 @@ function renderMeter(el: CapturedElement, indent: string, defCtx?: DefCtx): stri
     // crisply instead of AA'ing across two rows.
     const top = Math.round(el.y);
     const fullH = Math.round(el.height);
-    parts.push(`${indent}<rect x="${r(el.x)}" y="${r(top)}" width="${r(el.width)}" height="${r(fullH)}" rx="${r(trackRadius)}" fill="${trackGrad ?? trackFill}" />`);
+    parts.push(`${indent}<rect x="${r(el.x)}" y="${r(top)}" width="${r(el.width)}" height="${r(fullH)}" rx="${r(trackRadius)}" fill="${esc(trackGrad ?? trackFill)}" />`);
     if (ratio > 0) {
       const vInset = uaBarInset(fullH);
       const valueH = fullH - 2 * vInset;
@@ -1433,7 +1433,7 @@ function renderMeter(el: CapturedElement, indent: string, defCtx?: DefCtx): stri
       const valueRadius = Math.min(trackRadius, valueH / 2);
       const valueW = el.width * ratio;
       const valueGrad = gradientFillFor(geom.valueBgImage, geom.valueRect!, defCtx);
-      parts.push(`${indent}<rect x="${r(el.x)}" y="${r(valueTop)}" width="${r(valueW)}" height="${r(valueH)}" rx="${r(valueRadius)}" fill="${valueGrad ?? fill}" />`);
+      parts.push(`${indent}<rect x="${r(el.x)}" y="${r(valueTop)}" width="${r(valueW)}" height="${r(valueH)}" rx="${r(valueRadius)}" fill="${esc(valueGrad ?? fill)}" />`);
     }
   } else {
     // Native groove. Chrome paints a crisp 1px gray border (rgb(203,203,203))
@@ -1446,11 +1446,11 @@ function renderMeter(el: CapturedElement, indent: string, defCtx?: DefCtx): stri
     const left = Math.floor(el.x);
     const top = Math.floor(barY);
     const fullW = Math.round(el.width);
-    parts.push(`${indent}<rect x="${r(left + 0.5)}" y="${r(top + 0.5)}" width="${r(fullW - 1)}" height="${r(barH - 1)}" rx="${r(trackRadius)}" fill="${trackGrad ?? trackFill}" stroke="${groove}" stroke-width="1" />`);
+    parts.push(`${indent}<rect x="${r(left + 0.5)}" y="${r(top + 0.5)}" width="${r(fullW - 1)}" height="${r(barH - 1)}" rx="${r(trackRadius)}" fill="${esc(trackGrad ?? trackFill)}" stroke="${groove}" stroke-width="1" />`);
     if (ratio > 0) {
       const valueW = Math.max(0, Math.round(el.width * ratio) - 1);
       const valueGrad = gradientFillFor(geom.valueBgImage, geom.valueRect!, defCtx);
-      parts.push(`${indent}<rect x="${r(left + 1)}" y="${r(top + 1)}" width="${r(valueW)}" height="${r(barH - 2)}" rx="${r(Math.max(0, trackRadius - 1))}" fill="${valueGrad ?? fill}" />`);
+      parts.push(`${indent}<rect x="${r(left + 1)}" y="${r(top + 1)}" width="${r(valueW)}" height="${r(barH - 2)}" rx="${r(Math.max(0, trackRadius - 1))}" fill="${esc(valueGrad ?? fill)}" />`);
     }
   }
   return parts.join("\n");
-- 
2.43.0


From dce591ad43b040be281cd6a92ded59ebf35fadc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:52 +0000
Subject: [PATCH 32/44] fix: template asset paths become proper file URLs, icon
 colours are escaped

---
 src/templates/builtin/compare.ts   | 4 +++-
 src/templates/builtin/subscribe.ts | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/templates/builtin/compare.ts b/src/templates/builtin/compare.ts
index b94d788..a1729fb 100644
--- a/src/templates/builtin/compare.ts
+++ b/src/templates/builtin/compare.ts
@@ -14,10 +14,12 @@
 
 import { writeFileSync } from "node:fs";
 import { join, resolve, extname } from "node:path";
+import { pathToFileURL } from "node:url";
 import { z } from "zod";
 import { composeAnimatedLayers, type CompositeLayerAnimation } from "../../animation/index.js";
 import type { Template, TemplateOutput, TemplateRenderContext } from "../types.js";
 import { esc } from "../../render/format.js";
+import { escapeAttr } from "../../utils/escapeHtml.js";
 import { formatScaleFactor, type SafeInset } from "../formats.js";
 
 const MODES = ["wipe", "slide"] as const;
@@ -62,7 +64,7 @@ async function visualToSvg(ctx: TemplateRenderContext, src: string, w: number, h
     const html = `<!doctype html><html><head><meta charset="utf-8"><style>
       *{margin:0}html,body{width:${w}px;height:${h}px;overflow:hidden}
       img{width:100%;height:100%;object-fit:cover;display:block}
-    </style></head><body><img src="file://${resolveSrc(src)}"></body></html>`;
+    </style></head><body><img src="${escapeAttr(pathToFileURL(resolve(src)).href)}"></body></html>`;
     const path = join(ctx.workDir, `compare-${slot}.html`);
     writeFileSync(path, html);
     const out = await ctx.captureToSvg({ input: path, width: w, height: h });
diff --git a/src/templates/builtin/subscribe.ts b/src/templates/builtin/subscribe.ts
index 9019736..603e16f 100644
--- a/src/templates/builtin/subscribe.ts
+++ b/src/templates/builtin/subscribe.ts
@@ -14,7 +14,7 @@ import { brandParams, brandBackground, type Brand } from "../brand.js";
 import { safeAreaPadding, type SafeInset } from "../formats.js";
 import type { Anims } from "../../cli/animate.js";
 import type { Template, TemplateOutput, TemplateRenderContext } from "../types.js";
-import { escapeHtml } from "../../utils/escapeHtml.js";
+import { escapeAttr, escapeHtml } from "../../utils/escapeHtml.js";
 
 export const subscribeParamsSchema = z.object({
   name: z.string().default("Domotion").describe("Channel / profile name."),
@@ -49,7 +49,7 @@ export function buildSubscribeHtml(p: SubscribeParams, safeInset?: SafeInset): s
   const click = p.clickAfterMs > 0;
   const bellStroke = dark ? "#e5e7eb" : "#334155";
   const bellSvg = (fill: string, stroke: string) =>
-    `<svg width="26" height="26" viewBox="0 0 24 24" fill="${fill}" stroke="${stroke}" stroke-width="2" stroke-linecap="round" stroke-linejoin="round">
+    `<svg width="26" height="26" viewBox="0 0 24 24" fill="${escapeAttr(fill)}" stroke="${escapeAttr(stroke)}" stroke-width="2" stroke-linecap="round" stroke-linejoin="round">
        <path d="M18 8A6 6 0 0 0 6 8c0 7-3 9-3 9h18s-3-2-3-9"/><path d="M13.73 21a2 2 0 0 1-3.46 0"/>
      </svg>`;
 
-- 
2.43.0


From c174361b14fd78c45f6ff677135d86781d9baef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:31 +0000
Subject: [PATCH 33/44] fix: helper outlines are cached per face of a font
 collection

---
 src/render/font-resolution.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/render/font-resolution.ts b/src/render/font-resolution.ts
index c3c1c22..2964277 100644
--- a/src/render/font-resolution.ts
+++ b/src/render/font-resolution.ts
@@ -7728,17 +7728,19 @@ export function classifyEmptyGlyphOutline(
 }
 
 /** Fetch glyph `glyphId`'s outline from the native helper opening `srcPath`.
- * Cached per (path, id) and preserves whether the face could not be opened or
+ * Cached per (path, face, id) and preserves whether the face could not be opened or
  * the selected glyph produced no path; those are distinct degraded facts. */
 function helperGlyphOutline(srcPath: string, postscriptName: string | undefined, glyphId: number): HelperOutlineResolution {
-  const cacheKey = `${srcPath}#${glyphId}`;
+  // A collection file holds several faces, so the face is part of the identity.
+  const faceKey = `${srcPath}#${postscriptName ?? ""}`;
+  const cacheKey = `${faceKey}#${glyphId}`;
   const cached = helperOutlineCache.get(cacheKey);
   if (cached !== undefined) return cached;
 
-  let helper = helperFontCache.get(srcPath);
+  let helper = helperFontCache.get(faceKey);
   if (helper === undefined) {
     helper = (createGlyphHelperFont({ postscriptName, fontPath: srcPath }) as unknown as FontInstance) ?? null;
-    helperFontCache.set(srcPath, helper);
+    helperFontCache.set(faceKey, helper);
   }
 
   let result: HelperOutlineResolution;
-- 
2.43.0


From 3b6a3dd63734824b9e4b505b87839790730694a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:31 +0000
Subject: [PATCH 34/44] fix: a glyph def is shared only between identical
 outlines

---
 src/render/font-resolution.ts | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/render/font-resolution.ts b/src/render/font-resolution.ts
index 2964277..6f36e1e 100644
--- a/src/render/font-resolution.ts
+++ b/src/render/font-resolution.ts
@@ -9195,14 +9195,6 @@ export function ensureGlyphDef(
    *  the condensed run's registered outlines glyph id for glyph id. */
   stretch: number = 100,
 ): string {
-  const key = `${fontKey}-${weight}-${fontSize}-${slant}${stretch !== 100 ? `-w${stretch}` : ""}-${glyphId}`;
-  const existing = glyphKeyToId.get(key);
-  if (existing != null) return existing;
-
-  // Short sequential ID for compact output
-  const defId = `g${glyphIdCounter++}`;
-  glyphKeyToId.set(key, defId);
-
   // Convert glyph commands to SVG path data at font-unit scale.
   // Use integer coordinates (font units are integers) and shorthand commands.
   let d = "";
@@ -9223,6 +9215,15 @@ export function ensureGlyphDef(
     }
   }
 
+  // The outline itself is part of the identity: variation instances of one
+  // face (`font-variation-settings`) share every other component.
+  const key = `${fontKey}-${weight}-${fontSize}-${slant}${stretch !== 100 ? `-w${stretch}` : ""}-${glyphId}-${d}`;
+  const existing = glyphKeyToId.get(key);
+  if (existing != null) return existing;
+
+  // Short sequential ID for compact output
+  const defId = `g${glyphIdCounter++}`;
+  glyphKeyToId.set(key, defId);
   glyphDefs.set(defId, `<path id="${defId}" d="${d}"/>`);
   return defId;
 }
-- 
2.43.0


From 5499b13209ce857f1a9ca457569e5b985e0fc90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:31 +0000
Subject: [PATCH 35/44] fix: halt adjustments are cached per font instance

---
 src/render/font-resolution.ts | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/render/font-resolution.ts b/src/render/font-resolution.ts
index 6f36e1e..d286a82 100644
--- a/src/render/font-resolution.ts
+++ b/src/render/font-resolution.ts
@@ -9590,7 +9590,9 @@ export interface AlternateHalfWidthInfo {
   yOffset: number;
   feature: "halt" | "vhal";
 }
-const HALT_INFO_CACHE = new Map<string, AlternateHalfWidthInfo>();
+/** Keyed by font INSTANCE: weight cuts and variation instances of one font key
+ *  may carry different `halt` adjustments. */
+const HALT_INFO_CACHE = new WeakMap<FontInstance, Map<string, AlternateHalfWidthInfo>>();
 export function haltInfoFor(
   font: FontInstance,
   fontKey: string,
@@ -9599,7 +9601,12 @@ export function haltInfoFor(
 ): AlternateHalfWidthInfo {
   const feature = orientation === "vertical" ? "vhal" : "halt";
   const key = `${fontKey}|${cp}|${feature}`;
-  const hit = HALT_INFO_CACHE.get(key);
+  let perFont = HALT_INFO_CACHE.get(font);
+  if (perFont === undefined) {
+    perFont = new Map();
+    HALT_INFO_CACHE.set(font, perFont);
+  }
+  const hit = perFont.get(key);
   if (hit !== undefined) return hit;
   let info: AlternateHalfWidthInfo = { halved: false, xOffset: 0, yOffset: 0, feature };
   try {
@@ -9625,7 +9632,7 @@ export function haltInfoFor(
       }
     }
   } catch { /* leave default (not halt-able) */ }
-  HALT_INFO_CACHE.set(key, info);
+  perFont.set(key, info);
   return info;
 }
 
-- 
2.43.0


From 68cee616576256ae234287daaab3f372120b6f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:31 +0000
Subject: [PATCH 36/44] fix: the system fallback memo depends on everything its
 answer depends on

---
 src/render/font-resolution.ts | 18 +++++++++++++-----
 src/render/glyph-helper.ts    |  5 +++++
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/render/font-resolution.ts b/src/render/font-resolution.ts
index d286a82..19cb289 100644
--- a/src/render/font-resolution.ts
+++ b/src/render/font-resolution.ts
@@ -22,7 +22,7 @@ import { existsSync } from "node:fs";
 import * as nodePath from "node:path";
 import { fileURLToPath } from "node:url";
 import * as fontkit from "fontkit";
-import { createGlyphHelperFont, isGlyphHelperAvailable, resolveSystemFallbackFonts, resolveInstalledFont, resolveFcFallbackFonts, resolveSystemUiFamily, resolveFaceTraitBold, resolveFaceTraitItalic, resolveFamilyStyleMatch, resolveLinuxFamilyMatch, clearGlyphHelperCodepointMemos, clearGlyphHelperCache, beginFcFallbackRendererScope, selectFcFallbackRendererScope, endFcFallbackRendererScope, type GlyphRasterRepresentation, type LinuxFamilyMatch } from "./glyph-helper.js";
+import { createGlyphHelperFont, isGlyphHelperAvailable, resolveSystemFallbackFonts, resolveInstalledFont, resolveFcFallbackFonts, fcFallbackRendererScopeKey, resolveSystemUiFamily, resolveFaceTraitBold, resolveFaceTraitItalic, resolveFamilyStyleMatch, resolveLinuxFamilyMatch, clearGlyphHelperCodepointMemos, clearGlyphHelperCache, beginFcFallbackRendererScope, selectFcFallbackRendererScope, endFcFallbackRendererScope, type GlyphRasterRepresentation, type LinuxFamilyMatch } from "./glyph-helper.js";
 import { win32FamilySuffixAdjustment } from "./win32-family-suffix.js";
 import {
   firstAvailableOrFirst,
@@ -3155,9 +3155,17 @@ export function resolveSystemFallbackKeyForCp(
   // darwin reads `primaryKey` only through `base.name` / `useSystemUiBase`,
   // both already components, and stays unkeyed so its memo behavior (and the
   // committed conformance baseline) is untouched.
-  const primaryKeyComponent = hostPlatform() === "darwin" ? "" : primaryKey ?? "";
+  // They read the declared stack's head too (the standard-style retry applies
+  // only when the head IS the primary; DirectWrite is asked from the head's
+  // family), so the stack joins the key beside the primary.
+  const primaryKeyComponent = hostPlatform() === "darwin" ? "" : `${primaryKey ?? ""}|${declaredFamily ?? ""}`;
   const darwinDescription = hostPlatform() === "darwin" ? `|${rawSlope}|${orientation}` : "";
   const cacheKey = `${hostPlatform()}|${cp}|${weight}|${slant !== 0 ? 1 : 0}${darwinDescription}|${fontSize}|${base.name}|${useSystemUiBase ? "ui" : ""}|${lang ?? ""}|${suppressEmojiPresentation ? "t" : ""}|${primaryKeyComponent}`;
+  // Inside a renderer scope the Linux ask is first-query-wins per renderer and
+  // codepoint (`resolveFcFallbackFonts`), so its answer is a function of what
+  // that renderer asked before and must not outlive the scope in the
+  // process-global memo; the scope's own cache already spares the repeat asks.
+  const memoizable = hostPlatform() !== "linux" || fcFallbackRendererScopeKey() == null || !isGlyphHelperAvailable();
   // DM-1949: the ideograph document cache (Blink's character_fallback_cache_,
   // font_cache_mac.mm:352-366) is consulted BEFORE any ask — including the
   // process-global memo below, which is a memo of the context-FREE ask and
@@ -3182,7 +3190,7 @@ export function resolveSystemFallbackKeyForCp(
       _charFallbackDocCache!.set(docKey, resolvedKey);
     }
   };
-  if (systemFallbackKeyCache.has(cacheKey)) {
+  if (memoizable && systemFallbackKeyCache.has(cacheKey)) {
     const memo = systemFallbackKeyCache.get(cacheKey)!;
     docInsert(memo);
     return memo;
@@ -3396,7 +3404,7 @@ export function resolveSystemFallbackKeyForCp(
             // derives those from the requested weight against the resolved face,
             // so returning the key is sufficient and keeps that decision in one
             // place rather than duplicating the predicate.
-            systemFallbackKeyCache.set(cacheKey, primaryKey);
+            if (memoizable) systemFallbackKeyCache.set(cacheKey, primaryKey);
             return primaryKey;
           }
         }
@@ -3475,7 +3483,7 @@ export function resolveSystemFallbackKeyForCp(
       }
     }
   } catch { key = null; }
-  systemFallbackKeyCache.set(cacheKey, key);
+  if (memoizable) systemFallbackKeyCache.set(cacheKey, key);
   docInsert(key);
   return key;
 }
diff --git a/src/render/glyph-helper.ts b/src/render/glyph-helper.ts
index a41ef25..329ec1c 100644
--- a/src/render/glyph-helper.ts
+++ b/src/render/glyph-helper.ts
@@ -1501,6 +1501,11 @@ export function endFcFallbackRendererScope(): void {
   if (_fcFallbackRendererDepth === 0) _fcFallbackRendererCaches.clear();
 }
 
+/** The renderer whose first-query-wins cache is in force, or null outside any scope. */
+export function fcFallbackRendererScopeKey(): string | null {
+  return _fcFallbackRendererDepth > 0 ? _fcFallbackRendererKey : null;
+}
+
 /** Test-only view of the active codepoint-only Linux renderer cache. */
 export function __fcFallbackRendererCacheForTest(): Map<number, FcFallbackFont | null> | null {
   if (_fcFallbackRendererDepth === 0) return null;
-- 
2.43.0


From 708793bf62ac09f8cd355447b8af9fd5aaca0b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:54 +0000
Subject: [PATCH 37/44] fix: a failed render no longer leaves baseline snapping
 suppressed

---
 src/render/element-tree-to-svg.ts | 5 ++++-
 src/render/text-to-path.ts        | 7 +++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/render/element-tree-to-svg.ts b/src/render/element-tree-to-svg.ts
index 7034ff9..81b6a50 100644
--- a/src/render/element-tree-to-svg.ts
+++ b/src/render/element-tree-to-svg.ts
@@ -10,7 +10,7 @@ import * as fontkit from "fontkit";
 import { renderSingleLineText, renderMultiSegmentText, renderMultiLineText, renderInputText } from "./text.js";
 import { renderVerticalSegments, hasVerticalSegments } from "./vertical-text.js";
 import { renderPseudoFragmentSlot, type PseudoFragmentPaintSlot } from "./pseudo-fragments.js";
-import { getEmbeddedFontFaceCss, getGlyphDefs, renderRadicalGlyph, renderSourceOwnedTextBoundary, pushBaselineSnapSuppression, popBaselineSnapSuppression } from "./text-to-path.js";
+import { getEmbeddedFontFaceCss, getGlyphDefs, renderRadicalGlyph, renderSourceOwnedTextBoundary, pushBaselineSnapSuppression, popBaselineSnapSuppression, baselineSnapSuppression, restoreBaselineSnapSuppression } from "./text-to-path.js";
 import { beginCharacterFallbackDocument, endCharacterFallbackDocument } from "./font-resolution.js";
 import { profAccum, profNow } from "./render-profile.js";
 import type { DefCtx } from "./form-controls.js";
@@ -3442,9 +3442,12 @@ export function elementTreeToSvgInner(
   ...args: Parameters<typeof elementTreeToSvgInnerImpl>
 ): string {
   beginCharacterFallbackDocument();
+  // A render that throws inside a transformed group never reaches its pop.
+  const snapSuppression = baselineSnapSuppression();
   try {
     return elementTreeToSvgInnerImpl(...args);
   } finally {
+    restoreBaselineSnapSuppression(snapSuppression);
     endCharacterFallbackDocument();
   }
 }
diff --git a/src/render/text-to-path.ts b/src/render/text-to-path.ts
index 1714aee..93ffb0a 100644
--- a/src/render/text-to-path.ts
+++ b/src/render/text-to-path.ts
@@ -3032,6 +3032,13 @@ export function pushBaselineSnapSuppression(): void {
 export function popBaselineSnapSuppression(): void {
   if (baselineSnapSuppressionDepth > 0) baselineSnapSuppressionDepth--;
 }
+/** The depth to put back with `restoreBaselineSnapSuppression` when a render ends. */
+export function baselineSnapSuppression(): number {
+  return baselineSnapSuppressionDepth;
+}
+export function restoreBaselineSnapSuppression(depth: number): void {
+  baselineSnapSuppressionDepth = depth;
+}
 
 /**
  * The font context shared by `renderTextAsPath` and the measurement helpers
-- 
2.43.0


From 08dd18e8dad962b529c3c3fde387941b6602ebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:54 +0000
Subject: [PATCH 38/44] fix: a storyboard without cast scenes starts from empty
 glyph and font registries

---
 src/cli/storyboard.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cli/storyboard.ts b/src/cli/storyboard.ts
index a92bbb9..90c7329 100644
--- a/src/cli/storyboard.ts
+++ b/src/cli/storyboard.ts
@@ -367,9 +367,9 @@ export async function composeStoryboardConfig(
   //     same scene twice) down to one copy.
   const castIdxs = cfg.scenes.flatMap((s, i) => (s.cast != null ? [i] : []));
   let sharedFontCss = "";
+  clearEmbeddedFonts();
+  clearGlyphDefs(); // DM-1338: the glyph registry shares the shared-builder lifecycle
   if (castIdxs.length > 0) {
-    clearEmbeddedFonts();
-    clearGlyphDefs(); // DM-1338: the glyph registry shares the shared-builder lifecycle
     for (const i of castIdxs) {
       const scene = cfg.scenes[i];
       log(`Scene ${i + 1}/${n}: ${sceneLabel(scene)} (shared font)…`);
-- 
2.43.0


From 99fc1485434c2e11c623f2750ba76ec163ab71fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:20 +0000
Subject: [PATCH 39/44] fix: the remote-image fetch collects every image field
 the renderer inlines

---
 src/capture/embed.ts | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/capture/embed.ts b/src/capture/embed.ts
index e737b90..ee0622f 100644
--- a/src/capture/embed.ts
+++ b/src/capture/embed.ts
@@ -248,7 +248,9 @@ const DEFAULT_FETCH_RETRY_BACKOFF_MS = 500;
  * Walks the captured tree once collecting URLs from: `imageSrc` (for `<img>`),
  * `pseudoImages[].url` (for `::before`/`::after` content: url(...)), and CSS
  * `url(...)` tokens inside `styles.backgroundImage` / `.maskImage` /
- * `.borderImageSource` / `.listStyleImage`. Dedupes per call.
+ * `.borderImageSource` / `.listStyleImage` and the other rendered image
+ * fields (mask borders, reflections, generated boxes, scrollbar parts, …).
+ * Dedupes per call.
  *
  * Per-URL fetch failures (network error, non-2xx, missing Content-Type) leave
  * the URL in the tree as-is, so the SVG still references it. DM-527: each
@@ -280,6 +282,9 @@ export async function embedRemoteImages(
       }
     }
   };
+  const collectUrl = (url: string | null | undefined, selector: string): void => {
+    if (url != null && isRemoteUrl(url) && !refs.has(url)) refs.set(url, selector);
+  };
   const walk = (els: CapturedElement[], parentPath: string): void => {
     for (const el of els) {
       const sel = parentPath === "" ? el.tag : `${parentPath} > ${el.tag}`;
@@ -297,6 +302,20 @@ export async function embedRemoteImages(
       collectFromCss(el.styles.maskImage, sel);
       collectFromCss(el.styles.borderImageSource, sel);
       collectFromCss(el.styles.listStyleImage, sel);
+      collectFromCss(el.styles.maskBorderSource, sel);
+      collectFromCss(el.styles.webkitBoxReflect, sel);
+      collectFromCss(el.styles.inheritedTextFillGradient, sel);
+      for (const image of el.styles.backgroundImages ?? []) collectUrl(image?.selectedUrl, sel);
+      for (const box of el.pseudoBoxes ?? []) collectFromCss(box.backgroundImage, sel);
+      for (const record of el.pseudoFragments ?? []) {
+        collectFromCss(record.paint.backgroundImage, sel);
+        for (const item of record.contentItems) collectUrl(item.resolvedUrl, sel);
+      }
+      collectFromCss(el.resizeHandle?.custom?.backgroundImage, sel);
+      for (const set of [el.scrollbars, el.rootScrollbars]) {
+        const parts = [...(set?.horizontal?.parts ?? []), ...(set?.vertical?.parts ?? []), ...(set?.corner == null ? [] : [set.corner])];
+        for (const part of parts) collectFromCss(part.finalPseudoStyle?.backgroundImage, sel);
+      }
       if (el.children.length > 0) walk(el.children, sel);
     }
   };
-- 
2.43.0


From aa12b38d1f08ff3535b856b853c8fbf37c184d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:13 +0000
Subject: [PATCH 40/44] fix: composing an animation no longer rewrites the
 caller's template frame durations

---
 src/cli/animate.ts | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/cli/animate.ts b/src/cli/animate.ts
index 4dd4d65..9f7c643 100644
--- a/src/cli/animate.ts
+++ b/src/cli/animate.ts
@@ -1302,8 +1302,8 @@ async function renderTemplateFrames(
   log: (msg: string) => void,
   safeInset?: SafeInset,
   brand?: Brand,
-): Promise<Map<number, { content: string; durationMs: number | null }>> {
-  const out = new Map<number, { content: string; durationMs: number | null }>();
+): Promise<Map<number, { content: string; durationMs: number | null; inheritsDuration: boolean }>> {
+  const out = new Map<number, { content: string; durationMs: number | null; inheritsDuration: boolean }>();
   const idxs = cfg.frames.flatMap((f, i) => (f.template != null ? [i] : []));
   if (idxs.length === 0) return out;
 
@@ -1363,11 +1363,12 @@ async function renderTemplateFrames(
     // duration) MUST carry an explicit `duration`. When the author set one that's
     // shorter than the template plays, warn — the template will be cut off (same
     // rule as a `cast` frame).
+    let inheritsDuration = false;
     if (fc.duration <= 0) {
       if (result.durationMs == null) {
         throw new Error(`animate: frames[${i}].duration: template "${name}" has no intrinsic play time (it's a static template) — set an explicit "duration"`);
       }
-      fc.duration = result.durationMs;
+      inheritsDuration = true;
       log(`  frame duration defaulted to the template's play time: ${result.durationMs}ms`);
     } else if (result.durationMs != null && fc.duration < result.durationMs) {
       log(`  note: frame duration ${fc.duration}ms < template play time ${result.durationMs}ms — the template will be cut off; size duration to ≈ ${result.durationMs}ms`);
@@ -1383,7 +1384,7 @@ async function renderTemplateFrames(
     // group (same as a `cast` frame). Center within the canvas when smaller.
     content = content.replace(/^<\?xml[^>]*\?>\s*/, "");
     content = placeEmbeddedFrame(content, result.width, result.height, cfg.width, cfg.height, fit);
-    out.set(i, { content, durationMs: result.durationMs ?? null });
+    out.set(i, { content, durationMs: result.durationMs ?? null, inheritsDuration });
   }
   return out;
 }
@@ -2847,6 +2848,16 @@ export async function composeAnimateFrames(
   // from clobbering the outer frames' embedded fonts. Each rendered template SVG
   // is a finished string by the time the outer loop reaches its frame.
   const templateRenders = await renderTemplateFrames(cfg, browser, log, safeInset, runBrand);
+  // The inherited play times go into this run's own frames: the caller may compose
+  // the same config again (another format, an edited template) and it must still
+  // say "inherit" then.
+  cfg = {
+    ...cfg,
+    frames: cfg.frames.map((f, i) => {
+      const tr = templateRenders.get(i);
+      return tr != null && tr.inheritsDuration && tr.durationMs != null ? { ...f, duration: tr.durationMs } : f;
+    }),
+  };
   const ctx = await browser.newContext({
     viewport: { width: cfg.width, height: cfg.height },
     isMobile: cfg.mobile === true,
-- 
2.43.0


From 88bc4333585ba1aae0343bb7b9bf5107e7e8c344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:01 +0000
Subject: [PATCH 41/44] fix: repeated text passes no longer define the same
 decoration clip ids

---
 src/render/element-tree-to-svg.ts | 8 ++++----
 src/render/text.ts                | 9 +++++++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/render/element-tree-to-svg.ts b/src/render/element-tree-to-svg.ts
index 81b6a50..792269e 100644
--- a/src/render/element-tree-to-svg.ts
+++ b/src/render/element-tree-to-svg.ts
@@ -914,7 +914,7 @@ function buildPseudoBoxBgLayers(
 // (font resolution + shaping + outline/embedded-font build + markup).
 function renderOneText(
   ctx: PaintCtx,
-  opts: { el: CapturedElement; idPrefix: string; clipId: string; fillColor: string; overflowClip?: boolean; affineMatrix?: import("../capture/types.js").CapturedTextPaintAffine },
+  opts: { el: CapturedElement; idPrefix: string; clipId: string; decorationIdBase?: string; fillColor: string; overflowClip?: boolean; affineMatrix?: import("../capture/types.js").CapturedTextPaintAffine },
   emit: (pb: { x: number; y: number; width: number; height: number; backgroundImage: string; borderRadius?: number }) => string,
 ): string {
   const _tText = profNow();
@@ -1127,7 +1127,7 @@ function paintText(
           rasterGlyphs: undefined,
         })),
       };
-      let body = renderOneText(ctx, { el: shifted, idPrefix: ctx.idPrefix, clipId: cid, fillColor: shadowFillColor, affineMatrix }, emit);
+      let body = renderOneText(ctx, { el: shifted, idPrefix: ctx.idPrefix, clipId: cid, decorationIdBase: `${cid}-sh${si}`, fillColor: shadowFillColor, affineMatrix }, emit);
       if (sh.blur > 0) {
         const stdDev = sh.blur / 2;
         const fid = ctx.nextClipId("tsh");
@@ -1171,7 +1171,7 @@ function paintText(
             // a recolored gradient-pill rect underneath the shadow.
             pseudoBox: undefined,
           };
-          let segBody = wrapAffineTextPaint(affineMatrix, renderMultiSegmentText({ el, idPrefix: ctx.idPrefix, clipId: cid, fillColor: segShadowFill, emitPseudoBoxBgLayers: emit }, [shiftedSeg]));
+          let segBody = wrapAffineTextPaint(affineMatrix, renderMultiSegmentText({ el, idPrefix: ctx.idPrefix, clipId: cid, decorationIdBase: `${cid}-seg${segIdx}sh${si}`, fillColor: segShadowFill, emitPseudoBoxBgLayers: emit }, [shiftedSeg]));
           if (sh.blur > 0) {
             const stdDev = sh.blur / 2;
             const fid = ctx.nextClipId("tssh");
@@ -1217,7 +1217,7 @@ function paintText(
       // ordered by paint-order, with a transparent fill so only the stroke
       // paints.
       const maskFillEl: CapturedElement = { ...el, styles: { ...el.styles, color: "rgb(255,255,255)", webkitTextFillColor: "rgb(255,255,255)", webkitTextStrokeWidth: "0px" } };
-      const maskBody = renderOneText(ctx, { el: maskFillEl, idPrefix: ctx.idPrefix, clipId: cid, fillColor: "rgb(255,255,255)", overflowClip: textOverflowClip, affineMatrix }, emit);
+      const maskBody = renderOneText(ctx, { el: maskFillEl, idPrefix: ctx.idPrefix, clipId: cid, decorationIdBase: `${cid}-mask`, fillColor: "rgb(255,255,255)", overflowClip: textOverflowClip, affineMatrix }, emit);
       const mid = ctx.nextClipId("tbgm");
       ctx.defsParts.push(
         `<mask id="${mid}" maskUnits="userSpaceOnUse" x="${r(sourceEl.x)}" y="${r(sourceEl.y)}" width="${r(sourceEl.width)}" height="${r(sourceEl.height)}">${maskBody}</mask>`,
diff --git a/src/render/text.ts b/src/render/text.ts
index 9c8ddc8..fb2fca9 100644
--- a/src/render/text.ts
+++ b/src/render/text.ts
@@ -1028,6 +1028,11 @@ interface RenderTextOpts {
   el: CapturedElement;
   idPrefix: string;
   clipId: string;
+  /** Base for the ids of the clips that decoration lines define (skip-ink gaps,
+   *  wave bands). Defaults to `clipId`; a caller that paints the same element
+   *  more than once (text-shadow copies, glyph mask, stroke pass) must give each
+   *  extra pass its own base or the passes define the same ids. */
+  decorationIdBase?: string;
   fillColor: string;
   /** True when the element has overflow != visible (hidden / clip / scroll /
    *  auto on either axis) and text must be clipped to the content rect. When
@@ -1584,7 +1589,7 @@ export function renderSingleLineText(opts: RenderTextOpts): string {
       segWidth: el.textWidth ?? 0,
       fontSize: segFontSize, fontFamily: segFontFamily, fontWeight: segFontWeight,
       runText: pathText, features, runXOffsets: xOffsetsRel ?? undefined,
-      idBase: `${clipId}-dec`,
+      idBase: `${opts.decorationIdBase ?? clipId}-dec`,
     });
     // Per-char raster overlays (SK-1090). Emoji / color-bitmap codepoints in
     // the middle of plain-text runs get stamped on top of the path output.
@@ -1783,7 +1788,7 @@ export function renderMultiSegmentText(opts: RenderTextOpts, segments: TextSegme
       segWidth: seg.width,
       fontSize: segFontSize, fontFamily: segFontFamily, fontWeight: segFontWeight,
       runText: reordered.text, features: segFeatures, runXOffsets: segXOffsets ?? undefined,
-      idBase: `${clipId}-dec${_decoSegIdx++}`,
+      idBase: `${opts.decorationIdBase ?? clipId}-dec${_decoSegIdx++}`,
     });
     if (decoMarkup !== "") segParts.push(decoMarkup);
     // Per-char raster overlays (SK-1090). Emoji inline with path-rendered
-- 
2.43.0


From 1a945c1e732f8c4439f31b74a392b2e47121d6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:01 +0000
Subject: [PATCH 42/44] fix: inlined SVG ids are namespaced when white space
 surrounds the equals sign

---
 src/render/svg-inline.ts | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/render/svg-inline.ts b/src/render/svg-inline.ts
index 7add301..7e51280 100644
--- a/src/render/svg-inline.ts
+++ b/src/render/svg-inline.ts
@@ -35,22 +35,22 @@ export function prefixSvgIds(svg: string, prefix: string): string {
   for (const match of svg.matchAll(/\bid\s*=\s*(?:"([^"]+)"|'([^']+)')/gi)) ids.add(match[1] ?? match[2]);
   const mapped = (id: string) => ids.has(id) ? `${prefix}${id}` : id;
   let out = svg;
-  out = out.replace(/\bid="([^"]+)"/g, (_m, id: string) => `id="${prefix}${id}"`);
-  out = out.replace(/\bid='([^']+)'/g, (_m, id: string) => `id='${prefix}${id}'`);
+  out = out.replace(/\bid\s*=\s*"([^"]+)"/g, (_m, id: string) => `id="${prefix}${id}"`);
+  out = out.replace(/\bid\s*=\s*'([^']+)'/g, (_m, id: string) => `id='${prefix}${id}'`);
   out = out.replace(
-    /\b(href|xlink:href)="#([^"]+)"/g,
+    /\b(href|xlink:href)\s*=\s*"#([^"]+)"/g,
     (_m, attr: string, id: string) => `${attr}="#${mapped(id)}"`,
   );
   out = out.replace(
-    /\b(href|xlink:href)='#([^']+)'/g,
+    /\b(href|xlink:href)\s*=\s*'#([^']+)'/g,
     (_m, attr: string, id: string) => `${attr}='#${mapped(id)}'`,
   );
   out = out.replace(/url\(\s*(['"]?)#([^)'"\s]+)\1\s*\)/gi, (_m, quote: string, id: string) => `url(${quote}#${mapped(id)}${quote})`);
   const idRefAttrs = "aria-activedescendant|aria-controls|aria-describedby|aria-details|aria-errormessage|aria-flowto|aria-labelledby|aria-owns|for";
-  out = out.replace(new RegExp(`\\b(${idRefAttrs})=("|')([^"']*)\\2`, "gi"), (_m, attr: string, quote: string, value: string) =>
+  out = out.replace(new RegExp(`\\b(${idRefAttrs})\\s*=\\s*("|')([^"']*)\\2`, "gi"), (_m, attr: string, quote: string, value: string) =>
     `${attr}=${quote}${value.split(/\s+/).map(mapped).join(" ")}${quote}`,
   );
-  out = out.replace(/\b(begin|end)=("|')([^"']*)\2/gi, (_m, attr: string, quote: string, value: string) =>
+  out = out.replace(/\b(begin|end)\s*=\s*("|')([^"']*)\2/gi, (_m, attr: string, quote: string, value: string) =>
     `${attr}=${quote}${value.split(";").map((part) => part.replace(/^(\s*)([\w:.-]+)(\.)/, (_r, space: string, id: string, dot: string) => `${space}${mapped(id)}${dot}`)).join(";")}${quote}`,
   );
   out = out.replace(/(<style\b[^>]*>)([\s\S]*?)(<\/style>)/gi, (_m, open: string, css: string, close: string) =>
-- 
2.43.0


From 76b7ad2ebd0bdb92d1e633199fb148b3c428ee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:06 +0000
Subject: [PATCH 43/44] fix: every copy of a captured mask or clip definition
 carries its own descendant ids

---
 src/render/element-tree-to-svg.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/render/element-tree-to-svg.ts b/src/render/element-tree-to-svg.ts
index 792269e..5eb093e 100644
--- a/src/render/element-tree-to-svg.ts
+++ b/src/render/element-tree-to-svg.ts
@@ -3475,7 +3475,9 @@ function resolveFragmentClipPathRef(
 
   // The mask rewriter is element-name-agnostic (discovers ids, mints prefixed
   // aliases, rewrites href / url() refs); the outer `<clipPath>`'s id becomes
-  // `outId`, descendants get the `${idPrefix}fragid-${original}` alias.
+  // `outId`, descendants get the `${outId}-fragid-${original}` alias: every
+  // copy of the def carries its own, so two positioned copies never define the
+  // same descendant id.
   if ((def.clipPathUnits ?? "userSpaceOnUse") === "objectBoundingBox") {
     // objectBoundingBox: coords are 0..1 fractions of the masked element's
     // bbox — SVG auto-scales natively, so one shared def serves every
@@ -3484,7 +3486,7 @@ function resolveFragmentClipPathRef(
     if (cached != null) return cached;
     const outId = `${idPrefix}cpfrag${state.fragmentClipPathCounter++}`;
     fragmentClipPathOutputId.set(fragId, outId);
-    defsParts.push(rewriteFragmentMaskDef(def.outerHTML, outId, idPrefix));
+    defsParts.push(rewriteFragmentMaskDef(def.outerHTML, outId, `${outId}-`));
     return outId;
   }
 
@@ -3497,7 +3499,7 @@ function resolveFragmentClipPathRef(
   if (cached != null) return cached;
   const outId = `${idPrefix}cpfrag${state.fragmentClipPathCounter++}`;
   fragmentClipPathOutputId.set(cacheKey, outId);
-  const rewritten = rewriteFragmentMaskDef(def.outerHTML, outId, idPrefix);
+  const rewritten = rewriteFragmentMaskDef(def.outerHTML, outId, `${outId}-`);
   defsParts.push(positionFragmentClipPathDef(rewritten, elX, elY));
   return outId;
 }
@@ -3525,7 +3527,7 @@ function resolveFragmentMaskRef(
   // and re-emitting as a fresh <mask maskUnits="userSpaceOnUse">. The
   // captured mask's own x/y/width/height become the <mask> element's
   // bounds, shifted by (elX, elY).
-  const rewritten = rewriteFragmentMaskDef(def.outerHTML, outId, idPrefix);
+  const rewritten = rewriteFragmentMaskDef(def.outerHTML, outId, `${outId}-`);
   const positioned = positionFragmentMaskDef(rewritten, elX, elY, elW, elH);
   defsParts.push(positioned);
   return outId;
-- 
2.43.0


From f55f6c33d2f067e30cd32c1730c7791db6649a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:25 +0000
Subject: [PATCH 44/44] fix: escape the background-loop template's colors
 before writing them into attributes

---
 src/templates/builtin/background-loop.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/templates/builtin/background-loop.ts b/src/templates/builtin/background-loop.ts
index 75e28aa..86d127c 100644
--- a/src/templates/builtin/background-loop.ts
+++ b/src/templates/builtin/background-loop.ts
@@ -22,6 +22,7 @@
 
 import { runSingleFrameGenerator } from "../run-single-frame.js";
 import { z } from "zod";
+import { escapeAttr } from "../../utils/escapeHtml.js";
 import type { AnimateConfig, Anims } from "../../cli/animate.js";
 import type { Template, TemplateOutput, TemplateRenderContext } from "../types.js";
 import { brandParams, brandBackground, brandSeriesColors, type Brand } from "../brand.js";
@@ -156,7 +157,7 @@ export function buildBackgroundHtml(p: BackgroundLoopParams, blobs: Blob[]): str
     .map(
       (b) =>
         `<div class="bg-pos bg-pos-${b.idx}" style="left:${b.left}px;top:${b.top}px;width:${b.size}px;height:${b.size}px">`
-        + `<div class="bg-blob bg-blob-${b.idx}" style="background:radial-gradient(circle at center, ${b.color} 0%, transparent ${b.falloff}%)"></div>`
+        + `<div class="bg-blob bg-blob-${b.idx}" style="background:radial-gradient(circle at center, ${escapeAttr(b.color)} 0%, transparent ${b.falloff}%)"></div>`
         + `</div>`,
     )
     .join("\n  ");
@@ -303,7 +304,7 @@ export function planGridDots(p: BackgroundLoopParams): { dots: GridDot[]; cell:
  *  slides in as the layer drifts. Pure. */
 export function buildGridHtml(p: BackgroundLoopParams, grid: { dots: GridDot[]; cell: number; layerW: number; layerH: number }): string {
   const circles = grid.dots
-    .map((d) => `<circle cx="${d.cx}" cy="${d.cy}" r="${d.r}" fill="${d.color}"/>`)
+    .map((d) => `<circle cx="${d.cx}" cy="${d.cy}" r="${d.r}" fill="${escapeAttr(d.color)}"/>`)
     .join("");
   return `<!doctype html>
 <html><head><meta charset="utf-8"><style>
@@ -381,7 +382,7 @@ export function buildStarsHtml(p: BackgroundLoopParams, stars: Star[]): string {
     .map(
       (s) =>
         `<div class="st-pos st-pos-${s.idx}" style="left:${s.left}px;top:${s.top}px;width:${s.size}px;height:${s.size}px">`
-        + `<div class="st-star st-star-${s.idx}" style="background:radial-gradient(circle, #ffffff 0%, ${s.color} 38%, transparent 72%)"></div>`
+        + `<div class="st-star st-star-${s.idx}" style="background:radial-gradient(circle, #ffffff 0%, ${escapeAttr(s.color)} 38%, transparent 72%)"></div>`
         + `</div>`,
     )
     .join("\n  ");
@@ -496,7 +497,7 @@ export function buildWaveHtml(p: BackgroundLoopParams, layers: WaveLayer[]): str
       (l) =>
         `<div class="wv-layer wv-layer-${l.idx}" style="opacity:${l.opacity.toFixed(3)}">`
         + `<svg width="${w2}" height="${p.height}" viewBox="0 0 ${w2} ${p.height}" preserveAspectRatio="none">`
-        + `<path d="${l.path}" fill="${l.color}"/></svg></div>`,
+        + `<path d="${l.path}" fill="${escapeAttr(l.color)}"/></svg></div>`,
     )
     .join("\n  ");
   return `<!doctype html>
-- 
2.43.0

