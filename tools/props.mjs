export const PROPS = [
{
  id: "P03", title: "Code sent to the browser is self-contained and injection-free",
  statement: "Code that the host hands to the browser to run inside a page works there: every function sent reads only its own locals, its single data argument and the page's globals, never a variable, helper or import of the host program; the data argument contains only serialisable values (no functions or promises). When the code is sent as program text, values are spliced in only as JSON-encoded literals, numbers or fixed text. Modules bundled into the in-page capture program use no Node.js API.",
  over: ["inputs", "configurations"], q: "every evaluate-like call in the capture, animation, template, review and scrubber code, on every path that reaches it, whatever the page or configuration",
  why: "the failure (ReferenceError inside the page, or injected code) appears only when a real browser executes that particular call with a particular option set; most unit tests run without a browser and sample few options",
  files: ["src/capture/index.ts", "src/capture/script/index.ts", "src/cli/animate.ts"],
  mech: [["in-page capture program", "src/capture/script/index.ts"], ["host evaluate calls", "src/capture/index.ts"], ["frame mutation wrapper", "src/capture/text-paint-geometry-cdp.ts"]],
  technique: "type-resolved free-variable and argument-type analysis of page functions, constant-propagation of program text",
  note: "Every call that ships code to a page is resolved; each identifier inside each shipped function is bound by the type checker. Trusts the TypeScript binder; calls through untyped receivers are matched structurally.",
},
{
  id: "P07", title: "Acquired resources are released on every path, including failures",
  statement: "Every browser, browser context, page, CDP session, local server, child process, temporary directory, open file, worker, timer, process listener and raw terminal mode that the program acquires is released, or handed to an owner responsible for it, on every path out of the code that acquired it, including paths where a later step throws or rejects. Acquiring several at once does not lose the ones that succeeded when another fails.",
  over: ["fault_sequences", "inputs", "schedules"], q: "every acquisition site, every normal and exceptional path out of the owning function",
  why: "tests exercise the success path and a few injected failures; a leak needs a particular later step to fail and shows only as a process that never exits or leftover files",
  files: ["src/capture/index.ts", "src/cli/svg-to-video-core.ts", "src/templates/render.ts", "src/scrubber/server.ts"],
  mech: [["browser lifetime", "src/capture/index.ts"], ["ffmpeg child", "src/cli/svg-to-video-core.ts"], ["temporary directories", "src/scrubber/server.ts"]],
  technique: "path-sensitive typestate analysis over interprocedural control-flow graphs with may-throw summaries",
  note: "All feasible paths per function, exceptional edges from a may-throw fixpoint over the resolved call graph; ownership transfer by return, storage or closure. Trusts the table of external operations that can fail.",
},
{
  id: "P08", title: "A capture pass leaves the captured page as it found it",
  statement: "Whatever a capture pass changes in the live page in order to measure or rasterise it (marker attributes, private globals, injected style sheets or nodes, inline style overrides, a paused animation clock) is undone before the pass returns or throws, on every path, or handed back as a disposer that its caller always runs. An inline style is overridden only after the page's own value and priority were saved, and is put back with both, the newest override first.",
  over: ["fault_sequences", "histories", "inputs"], q: "every page-changing evaluation in the capture code, every normal and exceptional path out of the pass that made it; successive captures of one page",
  why: "the damage appears only on the next capture of the same page or when a step between change and undo fails in a real browser; unit tests use fake pages and the success path",
  files: ["src/capture/index.ts", "src/capture/native-control-raster.ts", "src/capture/pseudo-fragment-cdp.ts", "src/capture/text-paint-geometry-cdp.ts"],
  mech: [["projective/native surface isolation", "src/capture/index.ts"], ["pseudo fragment isolation", "src/capture/pseudo-fragment-cdp.ts"], ["walk markers", "src/capture/script/index.ts"], ["scrollbar probes", "src/capture/scrollbar-capture.ts"]],
  technique: "key-indexed typestate analysis of page mutations across host control flow, with effect summaries of the evaluated page functions",
  note: "Every evaluated function is summarised into the marker keys it sets and removes; host paths (with exceptional edges) are explored per key. What an undo routine does to each element is trusted beyond the key it names.",
},
{
  id: "P09", title: "No asynchronous failure goes unhandled",
  statement: "Every promise the host process creates that can reject is awaited, returned, combined or given a rejection handler before its creator suspends on something else, throws or ends; an async function given to a caller that ignores its result handles its own failures. Every child process, server, raw file stream and written child stdin has an error listener, so a failure never surfaces as an unhandled rejection or uncaught 'error' event that kills the process.",
  over: ["fault_sequences", "schedules"], q: "every promise-valued expression and event emitter in the host code, every order in which operations fail",
  why: "an unhandled rejection needs one particular operation to fail at one particular moment; tests drive the success order",
  files: ["src/cli/svg-to-video-core.ts", "src/utils/local-server.ts", "src/cli/review.ts", "src/capture/index.ts"],
  mech: [["server handlers", "src/utils/local-server.ts"], ["ffmpeg child", "src/cli/svg-to-video-core.ts"], ["parallel probes", "src/capture/index.ts"]],
  technique: "may-reject fixpoint over the call graph plus path-sensitive hand-over typestate of promise-valued expressions",
  note: "Covers every call whose static type is a promise; rejection capability is an interprocedural fixpoint over a table of fallible external operations. Promises stored in fields are treated as handed over.",
},
{
  id: "P04", title: "Output depends only on the input: no clock, randomness, locale or race",
  statement: "Capturing, rendering, composing, templating and post-processing the same input gives the same bytes: no clock reading, random value or process identity reaches generated markup or a captured field (they serve only for elapsed-time limits, logs and private temporary names); nothing is formatted or ordered by the host's default locale or by directory order. Work done concurrently never lets completion order decide the order or numbering of its results.",
  over: ["schedules", "inputs", "configurations"], q: "every clock, random, identity, locale and directory read, and every concurrent callback, in the capture, rendering, animation, template, scroll and CLI code",
  why: "two runs of a test on one machine agree by luck; the difference shows under another locale, another completion order or another day",
  files: ["src/render/hb-subset.ts", "src/render/glyph-helper.ts", "src/capture/embed.ts", "src/scroll/composer.ts"],
  mech: [["private page markers", "src/capture/scrollbar-capture.ts"], ["helper deadlines", "src/render/glyph-helper.ts"], ["parallel image fetch", "src/capture/embed.ts"]],
  technique: "effect inventory with interprocedural forward value flow; ordering-effect analysis of concurrent callbacks",
  note: "Every source call in scope is enumerated through the type checker and its value followed through variables, parameters, fields and returns. Log-like calls, comparisons and page markers are trusted sinks. Warning order is excluded.",
},
{
  id: "P13", title: "The local review and scrubber servers are confined and always answer",
  statement: "The local review and scrubber servers accept connections only on the loopback interface; nothing in a request (URL, header or body) chooses a file path, program or program argument except through a file-name filter that leaves no path separator, and a request body is size-limited while it is read and used only after schema validation. Every request receives exactly one response: no path through a handler, including one where a step fails, leaves the client waiting, ends the response twice or lets an exception escape.",
  over: ["inputs", "fault_sequences"], q: "every listen call, every file, process and navigation operation reachable from a request handler, and every path through every handler",
  why: "tests send a few well-formed requests; traversal needs a hostile name and an unanswered request needs a particular step to fail",
  files: ["src/utils/local-server.ts", "src/scrubber/server.ts", "src/review/server.ts"],
  mech: [["loopback bind", "src/utils/local-server.ts"], ["request parsing", "src/scrubber/server.ts"], ["asset routes", "src/review/server.ts"]],
  technique: "interprocedural taint from requests to file/process/navigation operands; response typestate over control-flow graphs; constant analysis of listen addresses",
  note: "Covers every handler taking a request/response pair and every sink in its call-graph closure. Whether the client honours a response, and cross-site requests from a local browser, are out of reach.",
},
{
  id: "P14", title: "Programs run without a shell; downloads are verified before installation",
  statement: "Helper programs are started from an argument list, never from a shell command line built from data; the program is fixed or chosen by the host's own configuration, and text from a captured page or a request never becomes the program or is read as one of its options. A downloaded helper program or data file is written only after its bytes equal the published SHA-256 digest, to a private temporary name that is then renamed into place, made executable before it becomes visible and after the files it needs.",
  over: ["inputs", "crash_points", "schedules"], q: "every process start and every write of downloaded bytes, on every path, whatever the page's font names or the server's reply",
  why: "an injected option needs a particular author font name on a particular platform, and an unverified install needs a tampered or interrupted download; tests have neither",
  files: ["src/render/font-resolution.ts", "src/render/helper-acquire.ts", "src/render/icu-helper-acquire.ts", "src/cli/common.ts"],
  mech: [["fontconfig queries", "src/render/font-resolution.ts"], ["glyph helper download", "src/render/helper-acquire.ts"], ["ICU companion download", "src/render/icu-helper-acquire.ts"]],
  technique: "interprocedural taint to process operands; dominance of digest equality over writes; ordering analysis of write, chmod and rename",
  note: "Covers every child_process/node-pty start in the shipped program and every file write fed by a fetch outside media embedding. The invoking user's own arguments and environment are trusted.",
},
{
  id: "P15", title: "Waiting on anything outside the process is bounded",
  statement: "Every network request carries a deadline that also covers reading its body; every synchronous helper program has a time limit; every loop that retries an outside operation tests a deadline or attempt limit; no browser operation disables its timeout. A wait settled only by page events, or by a page's own fonts and images, is raced against a timer or bounded by the caller, and piped child output is always consumed, so a stalled server, helper or page resource cannot hang a capture for ever.",
  over: ["fault_sequences", "schedules"], q: "every request, synchronous child, retry loop, page-event wait, readiness wait and piped child output in the program",
  why: "a hang needs a peer that stops responding at a particular moment (after the headers, mid-stream), which tests do not stage",
  files: ["src/capture/embed.ts", "src/render/glyph-helper.ts", "src/utils/wait-events.ts", "src/capture/background-image-sizing.ts"],
  mech: [["remote image fetch", "src/capture/embed.ts"], ["helper channel deadlines", "src/render/glyph-helper.ts"], ["readiness waits", "src/cli/common.ts"]],
  technique: "deadline-coverage analysis over control-flow graphs (abort signals, timers, loop cycles, promise races)",
  note: "Every fetch, synchronous child, retry loop, page-event promise and fonts/images wait is enumerated through the type checker. Animation-frame waits, encoder run time and interactive installs are outside the claim.",
},
{
  id: "P10", title: "Accepted configuration is validated and takes effect",
  statement: "Every key that a configuration file, request or template parameter schema accepts, and every option member that a public function's option types accept, influences what the program does: it is never merely validated, copied into another object that nobody reads, or tested for presence. JSON from a user's file or a request is validated against its schema, or its shape is tested, before any member of it is trusted.",
  over: ["inputs", "configurations"], q: "every key of every schema and every optional member of the public option types, whatever combination a user writes",
  why: "a silently ignored option passes every test that does not set exactly that option and look for its effect; with over 900 options tests set few",
  files: ["src/cli/animate.ts", "src/cli/composite.ts", "src/animation/overlay-schema.ts", "src/animation/cursor-overlay.ts", "src/index.ts"],
  mech: [["animate config schema", "src/cli/animate.ts"], ["transition schema", "src/animation/transition-schema.ts"], ["request bodies", "src/scrubber/server.ts"]],
  technique: "forward use analysis of declared options through structural type links; forward typing of parsed JSON",
  note: "Decides that an option reaches some real use, not that the use is right or that it is honoured in every mode. Options that select nothing by contract (labels, the touch pointer) are listed in the check.",
},
{
  id: "P12", title: "Command-line arguments are checked and honoured; failures exit non-zero",
  statement: "Every command-line program rejects unknown flags and surplus positional arguments instead of ignoring them; every flag it declares affects what it does and is named in its help; a flag's text is used as a number only after testing that it is finite, and as one of a fixed set of words only after testing that it is one. A failed command always ends with a non-zero exit status: status 0 (or a normal end) is reached only when the command ran to completion, help or version was asked for, or a running server was told to shut down.",
  over: ["inputs", "fault_sequences"], q: "every flag of every program, every argument text converted, and every path from a failure or an early return to the end of the process",
  why: "scripts and CI rely on the exit status and on typos being refused; tests call the inner functions, rarely the programs, and never each failing path",
  files: ["src/cli/index.ts", "src/cli/common.ts", "src/cli/capture.ts", "src/cli/term.ts", "src/cli/svg-to-video.ts", "src/cli/scrubber.ts"],
  mech: [["argument parsing of each program", "src/cli/capture.ts"], ["shared program harness", "src/cli/common.ts"], ["command dispatch", "src/cli/index.ts"]],
  technique: "control-flow path rules on entry code (exit status, surplus arguments); guard dominance of conversions; forward use analysis of declared flags",
  note: "All ten util.parseArgs sites and the five programs' entry functions. Ranges of valid numbers, and whether a flag does the right thing, are outside the claim.",
},
{
  id: "P01", title: "Text spliced into generated markup is always escaped",
  statement: "Text taken from the captured page, from configuration or from public string options never reaches generated SVG or HTML in a position where it could end that position: element text, attribute values, tags, style, scripts and comments receive it only after the delimiters of that position were escaped. Where the output is SVG, characters XML forbids are dropped too, so every produced document parses.",
  over: ["inputs", "configurations"], q: "every value spliced into every markup template; every page text, alternative text, URL, font name, colour and label a page or configuration can hold",
  why: "tests use tidy text; a missing or partial escape is visible only for the one field and the one delimiter that no sample contains",
  files: ["src/render/format.ts", "src/render/element-tree-to-svg.ts", "src/render/text-to-path.ts", "src/animation/animator.ts", "src/templates/builtin/chart.ts"],
  mech: [["XML/HTML escaping", "src/render/format.ts:esc, src/utils/escapeHtml.ts"], ["accessible names and text runs", "src/render/text-to-path.ts"], ["form controls, markers, broken images", "src/render/form-controls.ts, src/render/broken-image-fallback.ts"]],
  technique: "static analysis: taint (value-flow) analysis with context-sensitive sanitizer inference over markup templates",
  note: "computed-style colours and keywords are trusted to contain no delimiter; ready-markup fields are trusted"
},
{
  id: "P11", title: "Every accepted value of a closed option set has its own behaviour",
  statement: "For each option that accepts one of a fixed set of values (transition and overlay kinds, effect, chart and scene variants, positions, triggers, cursor and caret shapes), any two accepted values other than documented synonyms lead to different handling or reach the output or the browser themselves. No accepted value is silently ignored, and none reaches a branch that rejects it as unknown.",
  over: ["configurations"], q: "every member, and every pair of members, of every closed option set the configuration formats accept",
  why: "tests try a few members of a few sets; a member merged with its neighbour, ignored or rejected at run time shows only for that member",
  files: ["src/animation/transition-schema.ts", "src/animation/overlay-schema.ts", "src/cli/animate.ts", "src/cli/storyboard.ts", "src/templates/builtin/chart.ts"],
  mech: [["transition families", "src/animation/transition-schema.ts, src/animation/animator.ts"], ["overlay kinds", "src/animation/overlay-schema.ts"], ["template variants", "src/templates/builtin"]],
  technique: "static analysis: closed value sets from the schemas' types, with every discriminating construct attributed to its set by value flow; pairwise separation and alternative-branch obligations",
  note: "scroll/push-up and iris/wipe-radial are documented synonyms; a member counts as handled apart when some test or table separates it"
},
{
  id: "P06", title: "A remembered answer is the answer the work would give now",
  statement: "Whenever a result is kept to be reused (fonts, glyph outlines, fallback choices, shaping, embedded and resized images, measurements, keyframe names), the key it is kept under includes everything the result was computed from: every argument that can differ between two lookups, and every process-wide setting not constant over the table's life unless changing it empties the table. So what a render or capture produces for one input does not depend on which similar inputs were handled before it.",
  over: ["histories", "inputs"], q: "every lookup table that is both consulted and filled, every input of the remembered value, every order of lookups",
  why: "a missing key part gives a wrong answer only on the second of two lookups that differ in just that part; tests almost always start cold",
  files: ["src/render/font-resolution.ts", "src/render/glyph-helper.ts", "src/render/harfbuzz-shaper.ts", "src/render/cluster-fallback.ts", "src/capture/embed.ts", "src/capture/emoji.ts"],
  mech: [["font instances and cuts", "src/render/font-resolution.ts"], ["native font queries", "src/render/glyph-helper.ts"], ["shaping instances", "src/render/harfbuzz-shaper.ts"], ["page-side measurements", "src/capture/script"]],
  technique: "static analysis: backward dependence slices with access paths; the inputs of each remembered value must be covered by the inputs of its key",
  note: "dependence is by input, not by information: a key that includes a lossy form of an input counts as including it. Screenshots of one glyph cluster are taken to be position-independent."
},
{
  id: "P22", title: "A temporary setting never outlives the work it was made for",
  statement: "Process-wide settings put in force for one piece of work (text mode, shared font and glyph registries, device scale, per-document fallback state, suppressed baseline snapping) are back at their previous value when that work ends, whether it returns or fails. Nothing asynchronous runs, and no other caller can run, while such a setting is in force.",
  over: ["fault_sequences", "histories"], q: "every process-wide setting changed for the duration of some work, every normal and exceptional way out of that work",
  why: "a setting left behind by a failing render changes the next, unrelated render; tests render successfully and one thing at a time",
  files: ["src/render/text-to-path.ts", "src/render/embedded-font.ts", "src/render/element-tree-to-svg.ts", "src/render/font-resolution.ts", "src/cli/animate.ts"],
  mech: [["text mode", "src/render/embedded-font.ts"], ["per-document fallback state", "src/render/font-resolution.ts"], ["baseline snapping under transforms", "src/render/text-to-path.ts"]],
  technique: "static analysis: typestate of saved/raised settings over a path-sensitive CFG with exceptional edges, with enclosing save/restore scopes on every call chain",
  note: "synchronous code is not interleaved; a setting assigned anew by every piece of work on entry belongs to P05"
},
{
  id: "P05", title: "Output does not depend on what the process produced before",
  statement: "The output of a render, composition or capture depends only on its inputs, the settings and fonts its caller registered, and the host: no counter, registry, remembered choice or scan position left by an earlier call reaches a later one. Registries that belong to one document (glyph outlines, embedded fonts and the names handed out for them) are empty when the next document starts and are rewound together.",
  over: ["histories"], q: "every module-level variable the library writes while running, every chain of calls from a public entry to its first use, every sequence of calls in one process",
  why: "tests start from a fresh module or reset it themselves; carried-over state shows only on the second different call in one process",
  files: ["src/render/text-to-path.ts", "src/render/embedded-font.ts", "src/cli/animate.ts", "src/cli/storyboard.ts", "src/cli/composite.ts", "src/templates/render.ts"],
  mech: [["glyph and embedded-font registries", "src/render/text-to-path.ts, src/render/embedded-font.ts"], ["producers that reset them", "src/cli/*.ts, src/templates/render.ts"], ["process-long state", "src/render/font-resolution.ts"]],
  technique: "static analysis: inventory and classification of all module-level mutable state by effect and dependence analysis; interprocedural must-reset before use",
  note: "state documented as living as long as the capture session or the process is listed and reviewed in the check; pieces of a document (a bare tree render) join whatever document their caller started"
},
{
  id: "P02", title: "The document carries the images it shows",
  statement: "Every captured image address the renderer writes into the document as something to draw is first replaced by the fetched or read bytes when those are available, and the remote-image fetch collects every captured field the renderer draws images from. The generated markup names no remote resource of its own.",
  over: ["inputs"], q: "every place the renderer writes an image reference, every captured field an address can come from, every remote URL a page can use there",
  why: "tests cover the image fields they thought of; a field that is drawn but not collected stays a network reference that only shows offline or in an image viewer",
  files: ["src/capture/embed.ts", "src/render/element-tree-to-svg.ts", "src/render/image-pattern.ts", "src/render/mask.ts", "src/render/pseudo-fragments.ts"],
  mech: [["collecting and fetching", "src/capture/embed.ts"], ["drawing images", "src/render/element-tree-to-svg.ts, src/render/image-pattern.ts, src/render/mask.ts"]],
  technique: "static analysis: backward value-flow from every written reference to captured fields; set inclusion of rendered fields in collected fields",
  note: "a fetch that fails keeps the address and is reported; captured inline SVG is taken over verbatim; HTML of the review tools is out of scope"
},
{
  id: "P20", title: "What the caller passes in is left as it was",
  statement: "No public function changes, at any depth, the trees, configs, options, lists or maps its caller hands it; passing the same object again, or to another function, means the same thing. Built-in tables and remembered results handed to several readers are never modified in place.",
  over: ["inputs", "histories"], q: "every in-place change in the library, every object it can denote, every public entry it can come from",
  why: "tests build a new input for every call; a changed input or shared table shows only when the same object is used a second time",
  files: ["src/index.ts", "src/cli/animate.ts", "src/cli/storyboard.ts", "src/tree-ops", "src/animation", "src/render/element-tree-to-svg.ts", "src/templates/render.ts"],
  mech: [["config expansion", "src/cli/animate.ts"], ["tree passes", "src/tree-ops/*.ts, src/animation/*.ts"], ["memoised results", "src/render/*.ts"]],
  technique: "static analysis: backward object-identity (access-path alias) analysis of every mutation to public parameters, constant tables and memo entries",
  note: "annotation fields of captured nodes documented as written by the pass that owns them are listed in the check; live handles (pages, streams) are acted on, not preserved"
},
{
  id: "P16", title: "Identifiers in generated markup are unique and every reference resolves",
  statement: "In every generated document no two elements carry the same id: each definition carries the document's prefix and a count drawn anew for it, also when the same text, mask or embedded SVG is painted several times. Every url(#…) or href=\"#…\" the generator writes names an id that is defined on the same path, and identifiers of embedded foreign markup are put under a namespace of their own in every spelling XML allows.",
  over: ["inputs"], q: "every template that defines or refers to an identifier, every combination of branches and repetitions that reaches it",
  why: "a duplicate or dangling id needs two features together (a shadow and a decoration, two copies of one mask) and shows as a wrong clip or gradient, not as an error",
  files: ["src/render/element-tree-to-svg.ts", "src/render/text.ts", "src/render/mask.ts", "src/render/image-pattern.ts", "src/render/svg-inline.ts", "src/render/form-controls.ts", "src/animation/animator.ts"],
  mech: [["id allocation", "src/render/element-tree-to-svg.ts"], ["decoration clips", "src/render/text.ts"], ["namespacing of foreign markup", "src/render/svg-inline.ts, src/render/mask.ts"]],
  technique: "static analysis: symbolic shapes of identifier templates (value flow to counters, indices, prefixes) and path-sensitive definition/reference coverage over the CFG",
  note: "identifiers kept from captured markup are assumed unique in their own document; @keyframes names and class names are not covered"
},
{
  id: "P17", title: "Lengths stay on their own axis and times keep their unit",
  statement: "Every length drawn, measured or recorded along one axis is computed from lengths of that axis: no horizontal position or extent is added to, compared with, stored as or written out as a vertical one, except where both axes are exchanged together (a quarter turn, a vertical writing mode). Durations keep their unit: milliseconds and seconds are never combined or written out as each other without a conversion.",
  over: ["inputs", "configurations"], q: "every sum, difference, comparison, choice, min/max, record member, argument, declaration, SVG attribute and CSS length or time in host and page code whose operands have an inferable dimension",
  why: "an exchanged axis or a forgotten conversion is invisible for square boxes, zero offsets and short samples, and shows only for the layouts and timings a fixture does not have",
  files: ["src/render", "src/capture", "src/animation", "src/cli", "src/terminal", "src/review", "src/scrubber"],
  mech: [["background placement", "src/render/gradients.ts"], ["border painting", "src/render/borders.ts"], ["cursor overlay placement", "src/animation/cursor-overlay.ts"], ["frame timing", "src/animation/animator.ts"]],
  technique: "static analysis: dimension inference (axis, position or extent, time unit) over the type-checked program, with a consistency rule at every combination, store, argument and markup sink",
  note: "an operand whose dimension cannot be inferred is not judged; an exchange is accepted when its mirror image stands beside it"
},
];
