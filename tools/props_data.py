G = B + "graph.py"
P("C01", "Dependency graph: parents mirror children, operations have exact effects",
  "After any sequence of adding files, removing files and setting a file's children, a file is listed among another's parents exactly as many times as that other lists it among its children, and the recorded metadata is exactly what was last given. Each operation changes only the edges and files it names, a refused operation raises and changes nothing, and queries return exactly the current parents and children.",
  ["inputs", "histories"], "every graph state reachable by any history of operations, and every argument", "the tests run a dozen hand-written graphs of at most a few nodes; the mirror property has to hold after every history",
  [G], [("add_file", G), ("remove_file", G), ("set_children", G), ("get_parents/get_children/check_file", G)],
  claim=True, note="All of add_file, remove_file, set_children, check_file, get_parents, get_children, FileNode.__eq__ proved for all graphs and arguments against bag-valued contracts; the bounded run-time contract only supplies replays.")
P("C02", "Dependency graph: relationship queries and cycle refusal are exact",
  "For two distinct files in the dependency graph, the direct relationship reported is exactly what the two files' own parent and child lists say, and the nested relationship is exactly whether each can be reached from the other along any chain of dependencies; unknown or identical files are refused. With cycle prevention on (the default), setting a file's children is refused, changing nothing, exactly when a listed child is the file itself or already (transitively) depends on it, so no accepted change creates a dependency cycle.",
  ["inputs", "histories"], "every graph (any size, any depth, with duplicate edges), every pair of files and every child list", "the tests exercise two or three small cycles; reachability must be exact at every depth and on every diamond",
  [G], [("get_relationship", G), ("get_nested_relationship", G), ("set_children", G)],
  claim=True, note="Proved for all graphs: the relationship queries and set_children against a reachability spec (inferred loop invariants over the work-lists).")
P("C06", "Token pipeline: manipulators see and replace exactly their tokens",
  "Feeding a stream of tokens to a builder with any list of manipulators gives exactly the documented stream: each token is offered in order to the manipulators until the first one marks it; a marked token and those after it go to that manipulator alone until it answers, and its answer replaces them and is offered again from its first token; all other tokens appear once, in order. A generator-style JS manipulator sees every token of its span, and declining returns that span unchanged. The written file is the serialization of that stream, and a scan sees the same tokens.",
  ["inputs", "histories"], "every list of manipulators (arbitrary answers, arbitrary shared state), every token stream and every interleaving of handle_token and consume_tokens", "tests run the handful of shipped manipulators; interleavings of several marks, answers that are re-marked, and marks that end on the last token are not sampled",
  [B + "html/builder.py", B + "css/builder.py", B + "js/builder.py", B + "js/yield_manipulator.py", B + "css/manipulate_and_serialize.py", B + "js/manipulate_and_serialize.py"], [("handle_token, consume_tokens", B + "html/builder.py"), ("handle_token, consume_tokens", B + "css/builder.py"), ("handle_token, consume_tokens", B + "js/builder.py"), ("start_mark, continue_mark", B + "js/yield_manipulator.py")],
  claim=True, note="handle_token and consume_tokens of all three builders and JSYieldManipulator.start_mark/continue_mark proved for arbitrary manipulators and streams; termination is up to the manipulators. manipulate_and_serialize is covered by the bounded run-time contract.")
P("C07", "Text readers: peek and read deliver exactly the preprocessed text",
  "For every input text and every sequence of read and peek calls, the peekable reader's reads concatenate to exactly the underlying text, and the preprocessing reader's to that text with CR LF, CR and FF each turned into one newline and every lone surrogate into U+FFFD. A peek returns exactly what the next read of that length returns and consumes nothing; a call asking for n characters gets n unless the text ends first, and the end is reported as nothing, repeatedly.",
  ["inputs", "histories"], "every text, every sequence of read/peek lengths (including -1) and every split of the underlying stream", "the tests tokenize whole small files; the CR LF pair straddling a peek boundary and end-of-file interleavings are not sampled",
  [B + "ioutil.py"], [("PeekableTextIO", B + "ioutil.py"), ("PreprocessedTextIO", B + "ioutil.py")],
  claim=True, note="PeekableTextIO.read/peek and PreprocessedTextIO.read/peek proved for all texts and states; the two regular-expression substitutions enter as lemmas checked exhaustively to length 6.")
I = B + "html/manips/images/"
P("C12", "Images: every export is the right region at exactly the right size",
  "The cover fit of a source on a target is the largest rectangle of the target's ratio, to the nearest pixel, in what the pre-crops leave, offset by the crop percentages of the slack rounded down, inside the source; it is refused exactly when nothing is left. Sizes offered are exactly target x 1, 1+step, ... that fit the source and the maximum, rounded down. Per size and format the kept export is the first with the smallest size per preference among those whose area range applies, and each file written shows exactly that region at exactly its size.",
  ["inputs"], "every source and target size, pre-crop, crop percentage, step, maximum, preference and area range", "tests export a few real pictures once; rounding, off-by-one offsets and ties show only for particular ratios",
  [I + f for f in ("cover_fit.py", "resolutions.py", "settings.py", "exporter.py")], [("cover_fit", I + "cover_fit.py"), ("yield_resolutions, yield_sizes", I + "resolutions.py"), ("compare, compare_in_format, ImageExport.applies_to", I + "settings.py"), ("produce_image", I + "exporter.py")],
  claim=True, note="cover_fit, yield_resolutions, yield_sizes, compare, compare_in_format, applies_to and produce_image proved (PIL operations trusted, arithmetic exact). The loop choosing among exports is covered by the bounded run-time contract on real pictures.")
D_ = "vanillaplusjs/runners/dev.py"
P("C13", "Dev watcher: pending changes are exactly the net change on disk",
  "After any history of file events the watcher's pending sets say, for every file, exactly what happened since the last successful build: gone files are deleted, written ones changed or created, never both; folders are ignored and a move is a deletion plus a creation. A rebuild happens exactly when something is pending, the debounce has passed and there was a change since the last failed build; it gets exactly the pending files. A failed build keeps all of them pending, and changes arriving during a build are kept.",
  ["histories", "schedules"], "every history of events, every interleaving of events with a running rebuild, and every build outcome", "no test runs the watcher; the lost updates need particular orders of delete, create, move and a failing build",
  [D_], [("on_modified, on_created, on_deleted, on_moved", D_), ("rebuild_if_appropriate", D_)],
  claim=True, note="All four event handlers and rebuild_if_appropriate proved against a ghost model of what exists and what was touched; events delivered while a rebuild runs enter as a rely step at each acquisition of the lock. watchdog, asyncio and the rebuild itself are trusted here.")
J = B + "js/"
P("C19", "JS identifiers: exactly the characters Unicode and ECMAScript allow",
  "A character starts an identifier exactly when Unicode gives it ID_Start or it is $ or _, and continues one exactly when it has ID_Continue or is $, U+200C or U+200D, for every code point including those above U+FFFF. The identifier read at a position is the longest run of such characters, with \\uXXXX and \\u{X...} escapes (up to six digits, at most 10FFFF) standing for theirs; as, from and import are keywords only when that whole run is exactly them. The lookup in a sorted table of ranges is exact for every table.",
  ["inputs"], "every one of 1,114,112 code points and every text of identifiers and escapes", "the tests tokenize a few ASCII identifiers",
  [J + "unicode_derived.py", J + "tokenizer.py"], [("is_match, is_id_start, is_id_continue", J + "unicode_derived.py"), ("_consume_identifier", J + "tokenizer.py")],
  claim=True, note="is_match proved for all sorted tables, is_id_start/is_id_continue proved to use a table equal to the interpreter's Unicode database (characters assigned after Unicode 14 left open).")
P("C05", "JS rewriting: every script is written back meaning the same",
  "For every script, the tokens the JS tokenizer yields cover the text exactly, in order, with nothing lost or invented: strings carry their ECMAScript value, identifiers their name, comments and regular expressions their text, nested templates end where they should, and a slash starts a regular expression exactly where an expression can start. Writing them back gives a script of the same tokens: each string becomes a literal of the same value in plain ASCII, comments stay single comments, all else is unchanged but for line ends. Malformed text is passed through without an exception.",
  ["inputs"], "every text (after the newline preprocessing), every nesting of templates, every string value", "the tests tokenize and serialize short samples; escapes, quotes in comments, regular expressions and templates, and unterminated literals fail only for particular texts",
  [J + "tokenizer.py", J + "serializer.py"], [("tokenize and the _consume functions", J + "tokenizer.py"), ("serialize, serialize_string", J + "serializer.py")],
  claim=True, note="tokenize, all _consume functions, serialize and serialize_string proved for all texts and strings against an ECMAScript reading; left open: a slash after ) or } or ++ and after a property named like a keyword (needs a parser), legacy octal escapes, \\u{} with more than six digits.")
MH = B + "html/manips/"
HN = B + "handlers/"
P("C16", "Canonical links and og:url become absolute addresses of the right page",
  "A canonical link or og:url tag whose address is not an absolute http(s) URL is written with https://, the configured host, and: the page's own path when it has none; the root-relative path given; or the path given taken relative to the page's folder (an empty one means the host alone). All its other attributes are kept, every other tag is untouched, and scanning refuses a page exactly when such a tag needs a host and none is configured.",
  ["inputs"], "every page path, every attribute set and value, every host", "the tests use one page at the root with four addresses; nested pages, relative addresses and names that merely begin like http are not sampled",
  [MH + "link_rel_canonical.py"], [("LinkRelCanonicalManipulator.start_mark, continue_mark, try_get_tag", MH + "link_rel_canonical.py")],
  claim=True, note="start_mark and continue_mark (with their helpers inlined) proved for all tags, page paths and hosts; percent-encoding of the page's own path is trusted to urllib.")
P("C20", "JS type hints: marked lines become comments, all others stay",
  "In a script, every line that holds a comment reading exactly @@type-hint (surrounding white space aside) is replaced by one block comment of that line's text, whatever came before it and wherever on the line the comment is. Every other line, and every line end, is written as without the marker, and scanning changes nothing.",
  ["inputs", "histories"], "every sequence of tokens and lines", "the tests hold one marked line in one script; the state carried from line to line fails only for particular sequences of blank, marked and unmarked lines",
  [J + "manips/type_hints.py", J + "yield_manipulator.py"], [("TypeHintsManipulator.handle", J + "manips/type_hints.py")],
  claim=True, note="The generator TypeHintsManipulator.handle proved for every token stream, its yields as rely steps of the driver proved in C06.")
P("C22", "Published files: same bytes at the same path, right hash, nothing else",
  "A file below src/public that needs no processing is published at the same path below out/www with the same bytes, and beside it a .hash file holding the URL-safe base64 of its SHA-256; files elsewhere are not published. An output that is already there is left untouched and reported as reused, others are reported as produced, a scan announces exactly these outputs and no dependency, and nothing else on disk changes.",
  ["inputs"], "every path, content and set of outputs already there, copying or linking", "the tests publish a few files into an empty folder; prefixes, existing outputs of one of the two files and odd paths are not sampled",
  [HN + f for f in ("copy.py", "hash.py", "copy_and_hash.py")], [("get_target_path, scan_file, build_file", HN + "copy.py"), ("get_target_path, scan_file, build_file, calculate_hash", HN + "hash.py"), ("scan_file, build_file", HN + "copy_and_hash.py")],
  claim=True, note="All functions of the three handlers proved against a ghost disk (files by path; os, shutil, hashlib trusted).")
P("C18", "JS constants: the configured values for the mode being built",
  "The constants file written by a build exports exactly the configured shared constants and those of the mode being built (which win), each being JavaScript that evaluates to the configured value: strings of any characters, numbers, booleans, null, lists and objects, env:// values replaced by the variable's. An unset variable is refused. A file already there is kept and reported as reused, its hash file is that of its bytes, a scan announces exactly these two files, and nothing else is written.",
  ["inputs"], "every configuration of constants in the three groups, both modes, every set of outputs already there", "the tests use a few short ASCII strings and numbers",
  [HN + "js_constants.py", B + "build_context.py"], [("scan_file, build_file, jsify", HN + "js_constants.py"), ("load_js_constants, shallow_replace_envvars", B + "build_context.py"), ("serialize_string", J + "serializer.py")],
  claim=True, note="jsify, scan_file, build_file, shallow_replace_envvars and load_js_constants proved for all configurations against a ghost disk (json.dumps and serialize_string by contract; C05 proves the latter). The bounded run-time contract evaluates the written module in node.")
CB = B + "cold_incremental_rebuild.py"
HB = B + "hot_incremental_rebuild.py"
P("C10", "Incremental builds give exactly what a clean build gives",
  "Building a project without exported images that was built before gives, in the same mode and with the same configuration, exactly what a clean build of the same sources gives: the same files with the same bytes under out/www and artifacts, and the same stored dependency, output and placeholder relations, provided the builds before succeeded. The files it takes as changed, added and deleted are exactly those whose modification time, size or inode differ from the stored ones, that are new, and that are gone. A build with nothing changed writes nothing, and no build changes the sources.",
  ["histories"], "every history of edits, additions, deletions and mode switches between builds; for the detection of changes every tree of files and every stored graph", "the tests rebuild two or three tiny projects once; what goes stale depends on which file changed and on who refers to it, includes it or shares its output",
  [CB, HB, B + "file_signature.py", G], [("cold_incremental_rebuild", CB), ("hot_incremental_rebuild", HB), ("get_file_signature", B + "file_signature.py"), ("check_file", G)],
  claim=True, level="other", technique="contract-based deductive verification (change detection); bounded run-time contract (the rebuild itself)", note="Proved for every tree and every stored graph: cold_incremental_rebuild hands over exactly the changed, added and deleted files with their current signatures, get_file_signature and check_file are exact. BOUNDED, not proved: hot_incremental_rebuild and what it calls, checked by comparing random histories of up to 6 builds of small projects with clean builds.")
LH = MH + "link_hash.py"
P("C08", "References to published files carry the version of what they refer to",
  "In built pages, styles and scripts every rooted reference to a file of the site (link rel=stylesheet or preload, script src, css url(), JS import declarations, the latter also when relative) becomes the same path with ?v=<hash of the published file>&pv=<processor version>; nothing else of the element, token or declaration changes. References to other hosts, with a query or fragment, relative ones in pages and styles, a style's reference to itself, and imports marked ignore-import or with names as, from or import stay as written (the latter get a comment). A scan names exactly the files the build refers to.",
  ["inputs"], "every attribute value, url and token stream of import declarations, both modes, every relative path of the referring file", "the tests use one or two references of the simplest form per kind; which imports are declarations depends on the whole token stream",
  [LH, MH + "link_rel_stylesheet_hash.py", B + "css/manips/version_urls.py", J + "manips/hash_imports.py"], [("LinkHashManipulator.start_mark, continue_mark", LH), ("VersionURLsManipulator.start_mark, continue_mark", B + "css/manips/version_urls.py"), ("HashImportsManipulator.handle, _handle_import, _skip_types, _mark_import_bad", J + "manips/hash_imports.py")],
  claim=True, note="All manipulators that version references proved for every token (stream), against a ghost disk; import declarations are recognised against a grammar of ES import declarations. urlencode of the hash and URL decoding are trusted. The bounded run-time contract builds small projects.")
SF, BF = B + "scan_file.py", B + "build_file.py"
P("C24", "Inline scripts and styles are built exactly as separate files",
  "A page with inline scripts and styles is built exactly as if each had been saved, with exactly its text, as the page's own next generated file (js/gen/<page>/<n>.js, css/gen/<page>/<n>.css) and the page referred to it, with the element's other attributes and the version of what was built. Scripts with a src and data blocks (JSON-LD, import maps, templates) stay as they are. What the generated file depends on, produces and refers to is reported for the page, and the sources are left exactly as they were, also when the build of it fails.",
  ["inputs", "faults"], "every text, attribute set, number and order of inline elements, every page path, and a failure of the handler", "the tests outline one script and one style in one page each; two in one page, attributes, data blocks and failing contents are not sampled",
  [MH + "outline.py"], [("OutlineManipulator.__init__, start_mark, continue_mark, scan_result, build_result", MH + "outline.py")],
  claim=True, note="All of OutlineManipulator proved, each transition by its own contract (start tag, text, end tag; script and style; scan and build), against a ghost disk; folders are not on it (making one before opening a file in it is an obligation). That the elements' text reaches the manipulator whole is C06 and html5lib; the bounded check compares whole builds.")
P("C14", "A template is its file's text with the variables it is given",
  "A page that uses templates is built exactly as if the text of each template stood in place of the command: a path that begins with a slash is looked up in src/partials, any other beside the file that uses it, to any depth. Within a template exactly the variables it is given are defined, a reference to a variable of the file that uses it standing for that one's value; retrieving one gives its text, as text, never markup. After the template the frame of the file before is back, variables and all. Every template used is reported (scan: as a dependency, build: as a child); the use of a missing one or of an undefined variable fails, and comments that are no command stay as they are.",
  ["inputs"], "every path, nesting, set of variables of any value and page", "the tests use two templates by their rooted path with text variables in one level; relative paths, several levels, passed-on variables and odd values are not sampled",
  [MH + "template.py"], [("TemplateManipulator.start_mark, continue_mark, try_get_template_import, handle_template_import", MH + "template.py")],
  claim=True, note="All of TemplateManipulator's transitions proved, for commands of up to four parts; the two helpers that find and expand a template by contracts of their own, with loop invariants over all variables. json and html5lib's reading of a template are trusted functions; that the patterns match the comments meant, and that what is put in place is processed again in order (C06), is compared on whole builds within bounds.")
P("C09", "Scanning and building a file agree, and each file has one handler",
  "A file goes to the same single handler when it is scanned and when it is built: the constants file, image glue files, .html, .css and .js files to theirs, every other file is copied and hashed. For pages, styles and scripts every manipulator sees the document once and all that it names is reported: a scan announces exactly the outputs the build then produces or reuses and depends on exactly the files the build refers to; the document is written at its published path with its hash beside it. A scan writes nothing, and a file of these kinds outside src/public is neither published nor announced.",
  ["inputs"], "every path and kind of file, and every set of dependencies and outputs the manipulators report", "the tests check single handlers on single files; a report lost on the way only shows when that file alone changes later",
  [SF, BF, HN + "html.py", HN + "css.py", HN + "js.py"], [("scan_file", SF), ("build_file", BF), ("scan_file, build_file", HN + "html.py"), ("scan_file, build_file", HN + "css.py"), ("scan_file, build_file", HN + "js.py")],
  claim=True, note="Both dispatchers and the six handlers proved for every path and every report of the manipulators, against a ghost disk. That the manipulators themselves agree with one another in both modes is proved for references (C08) and otherwise bounded (whole projects, scanned again after the build).")
