#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (only the properties that have a check are listed)."""
import json, os, subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/"
U = "src/utils/"
P = {}


def prop(id, title, statement, over, quant, why, files, mech, observe, technique, note, hook=None):
    P[id] = dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": quant}, why_tests_cant=why,
                 anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook},
                 technique=technique, note=note)


HOOK = "the callback that reports the document after each step of the pipeline (define PPP_VERIF_HOOKS)"
NOTEST = "The existing tests cover only utility functions with fixed arguments; none of them runs this step of the pipeline on a document. "
SAN = "the real code, built with AddressSanitizer, UndefinedBehaviorSanitizer and the assertions of the standard library"
EXPL = " Exploration: it holds for the executions that were observed; trusts Poppler, the PDF generator in lib/pdfgen.py and the reference in Python."

prop("C01", "No input and no option makes the tool crash, hang or behave undefined",
     "Whatever bytes the input file consists of, and whichever valid options are given, the tool terminates: either with the result and the status 0, "
     "or with an error status. It never accesses memory that it does not own, never executes an operation with undefined behaviour, never fails an "
     "assertion and never ends by an uncaught exception or a signal. This includes damaged files, fonts and content streams, and numbers, counts and "
     "nesting of any magnitude.",
     ["inputs", "configurations"], "all byte strings as input file; all combinations of options",
     "The tests never open a PDF file; the space of malformed files is what a fuzzer samples and a test does not.",
     [S + "PdfParsing.cpp", U + "PdfFontInfoParser.cpp", S + "PdfToTextPlusPlus.cpp", S + "pdftotext++.cpp", S + "SemanticRolesPrediction.cpp"],
     [("bounds checks on parsing embedded Type 1 fonts", U + "PdfFontInfoParser.cpp"), ("early return if the file cannot be opened", S + "PdfParsing.cpp: process"),
      ("handling of pages without content", S + "PageSegmentation.cpp, " + S + "ReadingOrderDetection.cpp")],
     ["exit status, signal and sanitizer report of the process"],
     "sanitizers (ASan, UBSan, libstdc++ assertions) over generated, hostile and mutated PDF files and all options",
     "Runs " + SAN + "; damages bytes, tokens, and any entry of a dictionary (dropped or of another type), embedded fonts and their lengths; Poppler itself is not instrumented, and failures inside of it are not blamed on the tool." + EXPL)

prop("C02", "Each glyph is extracted once, with its text, place, direction, font and color",
     "For each page, the extracted characters are exactly the glyphs that the page draws inside of the page (blanks excepted), each of them once and in the "
     "order of drawing. Each has the text that its font assigns to the glyph, its page number, font (with its style), font size, color and opacity, its direction of "
     "writing (in steps of 90 degrees, as the page is displayed), and a bounding box that starts at the glyph's origin and covers its width along the "
     "direction of writing and its ascent and descent across it. Boxes are given in points from the upper left corner of the displayed page, for each "
     "page size, origin and rotation.",
     ["inputs"], "all pages, fonts, transformation matrices, text states and page rotations",
     NOTEST + "The matrices, fonts and rotations multiply to far more cases than a test can list.",
     [S + "PdfParsing.cpp", U + "CharMap.h", S + "Types.h"],
     [("drawChar callback", S + "PdfParsing.cpp: TextOutputDev::drawChar"), ("transformation of text space to the page", S + "PdfParsing.cpp"),
      ("mapping of glyph names to text", U + "CharMap.h")],
     ["document after parsing"], "runtime monitor over recorded documents against generated ground truth",
     "Each glyph that the generator drew is compared with the recorded characters (count, order, all attributes)." + EXPL, HOOK)

prop("C03", "No text is lost, invented or duplicated from the page to the output",
     "Each extracted character that is not part of a figure belongs to exactly one word, each word to exactly one text line, and each line to exactly one text block of the same "
     "page; no step of the pipeline loses, duplicates or moves a character to another page. The written plain text consists of exactly the characters "
     "that were drawn outside of figures, up to spaces, line breaks, composed accents and the hyphens of merged words.",
     ["inputs"], "all documents for which the extraction succeeds",
     NOTEST + "Conservation is a property of the whole pipeline and every layout.",
     [S + "WordsDetection.cpp", S + "PageSegmentation.cpp", S + "TextLinesDetection.cpp", S + "TextBlocksDetection.cpp", S + "ReadingOrderDetection.cpp",
      S + "serializers/PlainTextSerializer.cpp"],
     [("assignment of words to segments by xy-cuts", U + "XYCut.cpp"), ("clustering of words into lines", S + "TextLinesDetection.cpp"),
      ("lines to blocks", S + "TextBlocksDetection.cpp"), ("replacement of the page's blocks by the ordered ones", S + "ReadingOrderDetection.cpp")],
     ["document after each step", "output files"], "conservation monitor over the recorded stages and the output",
     "Multisets of characters are compared between the drawn page, all stages and the output." + EXPL, HOOK)

prop("C04", "All parts of the extracted document fit together",
     "After each step, the extracted document is consistent: the box of each word, line, block and part of a page is the smallest that contains its parts, "
     "its text is the text of its parts in order, parts and wholes refer to each other and lie on the same page, ranks number the words of a page, the lines of the document and the blocks of a page "
     "without gaps, and each line and block knows its neighbours in both directions. Font, font size and direction of a word, line or block are "
     "those of its characters.",
     ["inputs", "configurations"], "all documents, all steps of the pipeline that are switched on",
     NOTEST + "The tests build single elements by hand; the consistency of a whole document after each step is never looked at.",
     [S + "WordsDetection.cpp", S + "TextLinesDetection.cpp", S + "TextBlocksDetection.cpp", S + "PageSegmentation.cpp", S + "PdfParsing.cpp",
      U + "TextLinesDetectionUtils.cpp", U + "TextBlocksDetectionUtils.cpp", U + "PageSegmentationUtils.cpp"],
     [("creation of words", U + "WordsDetectionUtils.cpp"), ("creation of segments", U + "PageSegmentationUtils.cpp"),
      ("creation of lines", U + "TextLinesDetectionUtils.cpp"), ("creation of blocks", U + "TextBlocksDetectionUtils.cpp")],
     ["document after each step"], "invariant monitor over the recorded stages",
     "All references, boxes, texts, ranks and attributes of all recorded elements are recomputed from their parts." + EXPL, HOOK)

prop("C05", "Characters are grouped into words by gaps, jumps and direction",
     "Consecutive characters belong to the same word exactly if they have the same direction and writing mode, overlap sufficiently across the direction "
     "of writing, and the gap between them is small relative to the usual size of characters and words' gaps on the document; this holds in the same way for all four "
     "directions of writing. The text of a word is the text of its characters in order, and the limits of a sum, integral or similar symbol are attached "
     "to it if they are drawn next to it above or below and are smaller.",
     ["inputs"], "all sequences of characters of all sizes, fonts and directions",
     NOTEST + "Which gap separates words depends on statistics of the whole document.",
     [S + "WordsDetection.cpp", U + "WordsDetectionUtils.cpp", S + "Config.h"],
     [("decision per pair of consecutive characters", S + "WordsDetection.cpp: process"), ("stacked math symbols", S + "WordsDetection.cpp: mergeStackedMathSymbols")],
     ["document after the detection of words"], "runtime monitor over recorded documents against a reference and generated ground truth",
     "Words are recomputed from the recorded characters by an independent reference (with tolerances at the thresholds; including stacks of several limits and stacks side by side) and, for generated articles, compared with the words that were drawn." + EXPL, HOOK)

prop("C06", "Words side by side make up text lines, in the order of reading",
     "Within each part of a page, words of the same direction belong to the same text line exactly if they share the base line or overlap sufficiently across the direction "
     "of writing (transitively, for neighbouring lines), and the words of a line are ordered along the direction of writing; the lines of one direction are ordered across it. "
     "The text of a line is its words separated by one blank; its base line, font and size are the most frequent ones of its characters. "
     "Neighbours, siblings and parents (the hierarchy of indentation) of lines are determined by their positions, margins and distances.",
     ["inputs"], "all arrangements of words on a page, in all four directions",
     NOTEST + "Lines depend on the geometry of all words of a part of a page.",
     [S + "TextLinesDetection.cpp", U + "TextLinesDetectionUtils.cpp"],
     [("clustering by base line and merging of overlapping clusters", S + "TextLinesDetection.cpp"), ("hierarchy by indentation", U + "TextLinesDetectionUtils.cpp")],
     ["document after the detection of lines"], "runtime monitor over recorded documents against a reference and generated ground truth",
     "Lines are recomputed from the recorded segments by a reference that restarts from the words, and compared with the drawn lines of generated articles." + EXPL, HOOK)

prop("C07", "Text lines are grouped into blocks as the layout indicates",
     "Consecutive text lines of a part of a page belong to the same text block exactly as documented by the cues of the layout: their direction, distance, font size, "
     "weight, indentation, centering, list markers, footnote labels, headings and justification. Lines that are drawn as one paragraph (same font and size, usual line "
     "distance, consistent left margin) are never split, and paragraphs that are separated by a clearly larger distance or another font size are never "
     "joined. Emphasis, centering and hanging indentation of a block are those of its lines.",
     ["inputs"], "all sequences of text lines",
     NOTEST + "The decisions combine a dozen cues and statistics of the whole document.",
     [S + "TextBlocksDetection.cpp", U + "TextBlocksDetectionUtils.cpp"],
     [("decision per line whether a new block starts", S + "TextBlocksDetection.cpp"), ("properties of blocks", U + "TextBlocksDetectionUtils.cpp")],
     ["document after the detection of blocks"], "runtime monitor over recorded documents against a reference and generated ground truth",
     "Blocks are recomputed from the recorded lines by a reference in Python, and compared with the paragraphs of generated articles." + EXPL, HOOK)

prop("C08", "Pages are cut into parts only where there is a sufficient gap",
     "A page is divided recursively by vertical and horizontal cuts; each cut runs through a gap that is free of elements (up to a tolerated number of overlapping elements) and at least as wide "
     "as required, so that each element belongs to exactly one part and the parts' order is from left to right and from top to bottom. Cuts that would "
     "separate the words of a text line, or cut off slim or small pieces, are not made; all other possible cuts are made. The result depends only "
     "on the positions of the elements.",
     ["inputs"], "all arrangements of words, figures, graphics and shapes on a page; all decision functions given to the recursive division",
     NOTEST + "The recursion over arbitrary arrangements cannot be covered by examples.",
     [U + "XYCut.cpp", S + "PageSegmentation.cpp", U + "PageSegmentationUtils.cpp", U + "FixedCapacityPriorityQueue.h"],
     [("x-cut, y-cut and their recursion", U + "XYCut.cpp"), ("choice of cuts", S + "PageSegmentation.cpp: chooseXCuts, chooseYCuts")],
     ["results of cutting generated elements", "segments and cuts of recorded documents"],
     "runtime monitor: generated arrangements and recorded documents against a reference model",
     "The groups, the cuts and their attributes are compared with a reference implementation written from the documentation; arrangements with ties that the documentation leaves open are skipped." + EXPL, HOOK)

prop("C09", "Text blocks are in the order in which a human would read them",
     "The text blocks of a page are ordered by columns from left to right and within each column from top to bottom, where titles, author information, "
     "page headers and footers, wide lines and rotated text separate the areas that are ordered on their own. The order contains each text block of the page exactly once, "
     "and depends only on the positions and the roles of the blocks and figures.",
     ["inputs"], "all arrangements of blocks, figures and lines, with all assignments of roles",
     NOTEST + "The order depends on the arrangement of the whole page.",
     [S + "ReadingOrderDetection.cpp", U + "XYCut.cpp"],
     [("primary cuts at separators and by roles", S + "ReadingOrderDetection.cpp"), ("recursive cuts", U + "XYCut.cpp")],
     ["document after the detection of the reading order", "plain text output"],
     "runtime monitor over recorded documents against a reference model and generated ground truth",
     "The order is recomputed from the recorded blocks and roles by a reference model, and compared with the known order of generated articles." + EXPL, HOOK)

prop("C10", "The model for semantic roles sees the right features; its answer is the role",
     "For each text block the model gets exactly the documented features: its relative position, size and page, its style, the kinds of its characters, and the encoding "
     "of its words by byte pairs that are merged as the vocabulary prescribes, padded or cut to the expected length. The role of the block is the one to "
     "which the model assigns the highest score. Switching the prediction off leaves the default role.",
     ["inputs"], "all text blocks, all vocabularies, all scores of the model",
     "The tests do not compile this step at all (TensorFlow is not available), and encode only a few fixed words.",
     [S + "SemanticRolesPrediction.cpp", U + "BytePairEncoder.cpp"],
     [("layout features", S + "SemanticRolesPrediction.cpp: createLayoutInputTensor"), ("words", S + "SemanticRolesPrediction.cpp: createWordsInputTensor"),
      ("byte pair encoding", U + "BytePairEncoder.cpp"), ("choice of the role", S + "SemanticRolesPrediction.cpp: predict")],
     ["inputs and outputs of the (stand-in) model", "roles of the recorded blocks", "encodings"],
     "runtime monitor of the calls of the model against a reference", "The trained model is replaced by a stand-in that logs its inputs; the network itself is out of scope." + EXPL, HOOK)

prop("C11", "Diacritical marks are merged with the characters they belong to",
     "A diacritical mark that is drawn separately is merged with the character (drawn right before or after it) over which it lies, so that the output "
     "contains the accented character in its composed form where one exists; in turned text, this applies along the direction of the text. Each mark is merged with at most one character, no text is lost or "
     "duplicated, and characters that are not marks or do not overlap are never merged.",
     ["inputs"], "all sequences of characters and marks, in all directions",
     NOTEST, [S + "DiacriticalMarksMerging.cpp"],
     [("choice of the base character", S + "DiacriticalMarksMerging.cpp"), ("composition", "utf8proc")],
     ["document after the merging of marks"], "runtime monitor over recorded documents against a reference and generated ground truth",
     "Each mark's base and text are recomputed (also next to glyphs that stand for several characters); accented words must come out as they were meant." + EXPL, HOOK)

prop("C12", "Words that are hyphenated at the end of a line are joined again",
     "If the last word of a text line ends with a hyphen, it is joined with the first word of the line that follows in reading order (over blocks and pages, and over more than "
     "two lines), and both parts refer to the joined word, whose text is that of the parts without the hyphen (a word that is nothing but a hyphen is not joined); all other words remain as they are. "
     "With dehyphenation switched off, no words are joined.",
     ["inputs", "configurations"], "all sequences of lines",
     NOTEST, [S + "WordsDehyphenation.cpp", S + "serializers/PlainTextSerializer.cpp"],
     [("merging of the last and first words of lines", S + "WordsDehyphenation.cpp")],
     ["final document", "plain text output"], "runtime monitor over recorded documents against a reference and generated ground truth",
     "Merged words are recomputed from the recorded lines; the output of generated articles is compared with the original words." + EXPL, HOOK)

prop("C13", "Subscripts and superscripts are told apart from ordinary characters",
     "A character of a text line is a subscript or superscript exactly if it is smaller than the usual size of the line and its base line lies below, or above, the base line of "
     "the text line, seen in the direction of writing; no other attribute of the text changes. The base box of a line does not include its scripts.",
     ["inputs"], "all text lines in all four directions",
     NOTEST, [S + "SubSuperScriptsDetection.cpp"],
     [("comparison of sizes and base lines", S + "SubSuperScriptsDetection.cpp")],
     ["document after the detection of scripts"], "runtime monitor over recorded documents against a reference and generated ground truth",
     "Each character's script is recomputed, and compared with the scripts that were drawn." + EXPL, HOOK)

prop("C14", "The statistics of the document are the true averages and most frequent values",
     "The statistics on which all later decisions depend are correct for each document: the average extents of characters, and the most frequent "
     "font, font size, word height, word distance and line distance (overall and per font size), counted over all pages and only over the elements for "
     "which they are defined. Ties may be resolved arbitrarily; documents without the respective elements get the defaults.",
     ["inputs"], "all documents", NOTEST,
     [S + "GlyphsStatisticsCalculation.cpp", S + "WordsStatisticsCalculation.cpp", S + "TextLinesStatisticsCalculation.cpp", U + "Counter.cpp"],
     [("glyph statistics", S + "GlyphsStatisticsCalculation.cpp"), ("word statistics", S + "WordsStatisticsCalculation.cpp"),
      ("line statistics", S + "TextLinesStatisticsCalculation.cpp")],
     ["statistics of the recorded stages"], "runtime monitor over recorded documents against recomputed statistics",
     "All statistics are recomputed from the recorded elements; ties accept each of the tied values." + EXPL, HOOK)

prop("C15", "JSONL output is valid and states exactly what was extracted",
     "Each line of JSONL output is one valid JSON object, whatever the texts and font names contain, and the records of each type are exactly the extracted pages, blocks, words, "
     "characters, figures and shapes, in order. Each record has the page, box, text, font, size, style, color, role and the references to its word and block that were extracted; a mark that was merged appears only with its base character.",
     ["inputs"], "all documents, all choices of types and roles", NOTEST + "No test calls a serializer.",
     [S + "serializers/JsonlSerializer.cpp", S + "serializers/Serializer.cpp", S + "PdfDocumentSerialization.h", U + "TextUtils.cpp"],
     [("writing of records", S + "serializers/JsonlSerializer.cpp"), ("escaping", U + "TextUtils.cpp: escapeJson")],
     ["JSONL output and the recorded final document"], "runtime monitor: output against the recorded document",
     "Each output is parsed strictly and compared record by record with the recorded final document." + EXPL, HOOK)

prop("C16", "Plain text output is the text of all blocks, with the documented separators",
     "The plain text consists of the text blocks in reading order separated by an empty line, and of the words of each block separated by one blank; joined words appear once and "
     "accented characters in their merged form. The extended format additionally starts each block with its role in brackets and, if the block is emphasized, with a start-of-heading character, and "
     "ends each page with a form feed. Both formats write the same to a file (creating missing folders) as to the console.",
     ["inputs"], "all documents and choices of roles", NOTEST + "No test calls a serializer.",
     [S + "serializers/PlainTextSerializer.cpp", S + "serializers/PlainTextExtendedSerializer.cpp", S + "serializers/Serializer.cpp"],
     [("plain text", S + "serializers/PlainTextSerializer.cpp"), ("extended", S + "serializers/PlainTextExtendedSerializer.cpp")],
     ["output and the recorded final document"], "runtime monitor: output against the recorded document",
     "Each output is compared byte by byte with the text computed from the recorded final document." + EXPL, HOOK)

prop("C17", "The choices of format, roles and types select exactly what is written",
     "Only text from blocks with one of the given roles and only records of one of the given types are written, and all of them; without a choice, everything is written, as plain "
     "text. Choices may be repeated and given in any order and syntax that the help describes; they change nothing else about the result. The options that are described to omit scripts or to add "
     "control characters or roles do so.",
     ["inputs", "configurations"], "all documents, all combinations of formats, roles and types",
     "No test runs the command-line tool or a filter.",
     [S + "pdftotext++.cpp", S + "Validators.cpp", S + "serializers/Serializer.cpp", U + "PdfElementsUtils.cpp"],
     [("options", S + "pdftotext++.cpp"), ("parsing of names", S + "Validators.cpp"), ("filters", S + "serializers")],
     ["output of the command-line tool"], "runtime monitor: output of the tool against the recorded document",
     "Outputs of the real command-line tool are compared with the recorded document of the same file." + EXPL, HOOK)

prop("C18", "The same file and options always give the same result, with unique ids",
     "The result (all elements, their order and all written text) is a function of the input file and the options: it does not depend on the layout of memory, the time, the "
     "process id, the environment, earlier runs or the chosen verbosity. The ids of all elements of a document are non-empty and unique.",
     ["inputs", "configurations", "histories"], "all documents; all addresses, times, process ids and environments",
     "A test sees one memory layout and one process; dependence on addresses or uninitialized values shows up only across many.",
     [S + "PdfParsing.cpp", S + "TextLinesDetection.cpp", U + "Counter.cpp", U + "TextUtils.cpp", S + "pdftotext++.cpp"],
     [("ordered iteration", S + "TextLinesDetection.cpp"), ("random ids", U + "TextUtils.cpp: createRandomString"), ("initialization of all members", S + "Types.h")],
     ["recorded documents and outputs of repeated runs"], "differential runs with perturbed memory, environment and seed; memcheck for uninitialized values",
     "Repeated runs of differently built and perturbed programs (filled memory, addresses, other compiler, Valgrind) are compared." + EXPL, HOOK)

prop("C19", "The exit status and the messages of the tool tell what happened",
     "The tool ends with status 0 exactly if all that was requested was extracted and written completely; it ends with another status and a message, but no crash, if an option is invalid, the input is missing or cannot "
     "be read as a PDF file, the model is missing, or an output cannot be written. Help and version are printed on request without reading any file. Unless more is requested, nothing but the extracted text goes to the "
     "standard output, and no file other than the requested ones is written.",
     ["inputs", "configurations", "fault_sequences"], "all command lines; all faults on reading and writing files",
     "No test runs the command-line tool.",
     [S + "pdftotext++.cpp", S + "serializers/Serializer.cpp", S + "Validators.cpp", S + "PdfParsing.cpp"],
     [("options", S + "pdftotext++.cpp"), ("status of the writing", S + "serializers/Serializer.cpp")],
     ["exit status, output streams and files of the tool"], "runtime monitor of the tool's process under fault injection",
     "Runs the real command-line tool with valid, invalid and almost valid options (each allowed value shortened, extended, in other letters), as root and as an unprivileged user, with full devices, missing folders and unreadable files." + EXPL)

prop("C20", "The visualization adds the requested boxes and leaves the file as it is",
     "With visualization, a valid PDF file with the pages, texts and annotations of the input is written, in which a box is drawn around each element of each requested kind at its position on the page, for each page "
     "size, origin and rotation (blocks with their roles; the reading order with lines and numbers; cuts with lines, numbers and names). Nothing else is added, and without a request nothing is written. The input file "
     "and the extracted text are not changed by it.",
     ["inputs", "configurations"], "all documents, all combinations of the options for visualization",
     "No test creates a visualization.", [S + "PdfDocumentVisualization.cpp", S + "pdftotext++.cpp"],
     [("drawing of annotations", S + "PdfDocumentVisualization.cpp")],
     ["annotations of the written file"], "runtime monitor: annotations of the written file against the recorded document",
     "The written file is parsed, and its annotations are compared with the recorded elements." + EXPL, HOOK)

prop("C21", "Figures, images and vector graphics are extracted with their visible extent",
     "Each path that a page paints (filled by any rule or stroked) and each image that it shows is extracted once, with the box of its part that is visible through the current "
     "clip region; what is invisible is not extracted. All that is drawn within the same clip box (other than the page) makes up one figure that contains exactly these "
     "characters, paths and images; what is drawn without such a clip box belongs to the page itself.",
     ["inputs"], "all sequences of painting, clipping and transforming operators, all pages",
     NOTEST, [S + "PdfParsing.cpp"],
     [("stroke, fill, eoFill callbacks", S + "PdfParsing.cpp"), ("images", S + "PdfParsing.cpp: drawGraphic"), ("figures per clip box", S + "PdfParsing.cpp")],
     ["document after parsing"], "runtime monitor over recorded documents against generated ground truth",
     "Each drawn path and image and each clip box is compared with the recorded elements." + EXPL, HOOK)

prop("C22", "Embedded Type 1 fonts are read as the font format prescribes",
     "From an embedded Type 1 font program in any of its forms, the weight, the slant, the font matrix and the box of each glyph (of all points of its outline) are read as the format "
     "prescribes, including encryption, subroutines, hints and flex. A glyph's true box is used for a character exactly if it is larger than the nominal one across the "
     "direction of writing, and a damaged font program never affects the text.",
     ["inputs"], "all Type 1 font programs and char strings", NOTEST + "The tests contain no font program.",
     [U + "PdfFontInfoParser.cpp", S + "PdfParsing.cpp"],
     [("decryption and parsing", U + "PdfFontInfoParser.cpp"), ("use of the boxes", S + "PdfParsing.cpp")],
     ["font information and boxes of the recorded document"], "runtime monitor over recorded font information against an independent interpreter",
     "Font programs are generated; their glyph boxes are computed by an independent interpreter of char strings." + EXPL, HOOK)

prop("C23", "Geometry, rounding and comparisons follow their definitions in all directions",
     "All geometric and numeric helpers return what their documentation defines for all arguments: rounding, tolerant comparisons, overlaps, gaps and relative positions of boxes with respect to the "
     "direction of writing, and the equality of fonts and sizes. The orders used for sorting are strict orders, so that sorting keeps all elements and is consistent.",
     ["inputs"], "all numbers, boxes and directions",
     "The tests use a few fixed numbers, mostly for unrotated boxes.",
     [U + "MathUtils.cpp", U + "PdfElementsUtils.cpp", U + "Comparators.h", S + "Types.cpp"],
     [("numbers", U + "MathUtils.cpp"), ("boxes", U + "PdfElementsUtils.cpp"), ("orders", U + "Comparators.h")],
     ["results of the functions"], "runtime monitor: results for random arguments against a reference, under sanitizers",
     "Random and boundary arguments; results within the tolerance of a threshold are skipped." + EXPL)

prop("C24", "Text helpers treat every text as documented",
     "For all texts, the helpers that split, join, strip, wrap, shorten, and escape texts and judge their case, their end and their length do what their documentation says: no character is lost, added or "
     "cut apart, joining undoes splitting, and an escaped text reads back as the original. Random strings have the requested length, consist of letters and digits only and do not repeat.",
     ["inputs"], "all strings and separators", "The tests use a few fixed strings.",
     [U + "TextUtils.cpp"], [("text helpers", U + "TextUtils.cpp")], ["results of the functions"],
     "runtime monitor: results for random arguments against a reference, under sanitizers", "Random texts in various scripts." + EXPL)

prop("C25", "Counters and the queue with limited capacity keep exact books",
     "For each history of operations, a counter reports exactly the numbers of occurrences, their sum and a most frequent value, and the queue with limited capacity holds "
     "exactly the greatest elements that were added so far and returns them in order; emptiness and size are always right.",
     ["histories"], "all sequences of operations", "The tests use a few fixed sequences.",
     [U + "Counter.cpp", U + "FixedCapacityPriorityQueue.h"], [("counters", U + "Counter.cpp"), ("queue", U + "FixedCapacityPriorityQueue.h")],
     ["results of the operations"], "runtime monitor: random histories against multisets, under sanitizers", "Random histories." + EXPL)

prop("C26", "Log messages appear exactly if their level and page are selected",
     "A log message is written exactly if its level is at least the chosen level and its page is the selected one (or no page is selected), in the order of logging, with the time, the "
     "level and the full text, and colored only as documented. A message that is filtered out leaves no trace in the output.",
     ["histories", "configurations"], "all sequences of settings and messages", "The tests log a few fixed messages.",
     [U + "Log.cpp"], [("filter and form", U + "Log.cpp")], ["output of the logger"],
     "runtime monitor: random histories of messages against a reference", "Random histories." + EXPL)

prop("C27", "Switching off a step affects only what depends on it",
     "Each step of the extraction can be switched off on its own; then this step changes nothing, all steps that do not depend on it give the same result as before, and the "
     "tool still terminates properly. The switches on the command line switch off exactly the step that they name.",
     ["configurations", "inputs"], "all subsets of the steps, all documents", "No test runs the pipeline.",
     [S + "PdfToTextPlusPlus.cpp", S + "pdftotext++.cpp", S + "Config.h"],
     [("switches", S + "PdfToTextPlusPlus.cpp"), ("options", S + "pdftotext++.cpp")],
     ["recorded stages", "output of the tool"], "differential runtime monitor over recorded stages with and without each step",
     "Recorded stages of runs with and without steps are compared." + EXPL, HOOK)

prop("C28", "Moving or turning a page changes nothing but the positions",
     "If the content of a page is moved on the page or its origin is moved, all extracted elements move along, and words, lines, blocks and their order remain the same; the result is the same, too, whatever "
     "the order of the objects in the file, the compression, and the grouping of the drawing operators. A page whose rotation entry makes up for the turn of its contents gives the same result as an unturned page; if the "
     "contents are turned by a multiple of 90 degrees, words, scripts and the text lines within the same segment remain the same, and boxes turn along.",
     ["inputs"], "all documents and displacements; all rotations by 90 degrees",
     NOTEST + "It relates two executions, which tests do not.",
     [S + "PdfParsing.cpp", U + "PdfElementsUtils.cpp", S + "WordsDetection.cpp", S + "TextLinesDetection.cpp"],
     [("transformation to page coordinates", S + "PdfParsing.cpp"), ("coordinates with respect to the rotation", S + "Types.cpp")],
     ["recorded stages of related documents"], "metamorphic runtime monitor over pairs of recorded runs",
     "Pairs of documents that differ by a translation or rotation are compared." + EXPL, HOOK)


# How each check decides, where it says more than the above (for DESIGN.md).
HOW = {}


def claimed():
    return [i for i in sorted(P) if os.path.exists(os.path.join(VERIF, "checks", i + ".py"))]


def main():
    ids = claimed()
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for i in ids:
            d = {k: v for k, v in P[i].items() if k not in ("technique", "note")}
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
            assert len(d["title"]) <= 80, d["title"]
    man = {"version": 1, "setup_cmd": "python3 lib/build.py san && python3 lib/build.py opt rec cli",
           "hooks": {"guard": "PPP_VERIF_HOOKS", "enable": "lib/build.py compiles /repo/src with -DPPP_VERIF_HOOKS (and the sanitizers) into /verif/build",
                     "source_commits": ["3b8979527b5aa29b65ad1fd1d1a8b9d0f1a6b4f8"]},
           "checks": [dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique=P[i]["technique"], level="exploration", level_note=P[i]["note"]) for i in ids],
           "not_applicable": [],
           "notes": "One driver (check.py, lib/fw.py); replay a violation with: python3 check.py <id> --replay <path>. See DESIGN.md."}
    man["hooks"]["source_commits"] = [subprocess.run(["git", "-C", "/repo", "rev-parse", "3b89795"], capture_output=True, text=True).stdout.strip()]
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")
    design(ids)


def design(ids):
    with open(os.path.join(VERIF, "lib", "DESIGN.in.md")) as f:
        t = f.read()
    rows = []
    for i in ids:
        p = P[i]
        rows.append("### %s %s\n\n%s\n\n- Ranges over: %s.\n- Decided by: %s. %s\n%s- Beyond the tests: %s\n" % (
            i, p["title"], p["statement"], p["quantifier"]["text"], p["technique"], p["note"].strip(), HOW.get(i, ""), p["why_tests_cant"].strip()))
    kf = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    fs = ["- %s %s: %s" % (x["property"], "(recorded)" if x["status"] == "finding" else "(repaired)", x["what"]) for x in kf]
    ss = []
    sd = os.path.join(VERIF, "seeded")
    for s in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, s, "meta.json")))
        ss.append("- `%s` (%s): %s Needs: %s." % (s, m["property"], m["what_it_breaks"], m["needs"]))
    with open(os.path.join(VERIF, "DESIGN.md"), "w") as f:
        f.write(t.replace("@@TABLE@@", "\n" + "\n".join(rows)).replace("@@FINDINGS@@", "\n".join([""] + fs)).replace("@@SEEDS@@", "\n".join([""] + ss)))


if __name__ == "__main__":
    main()
