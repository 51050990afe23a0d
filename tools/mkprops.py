#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so the file stays consistently formatted).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

p("C01", "Every written document is a structurally valid PDF file",
  "Whenever writing a document reports success, the file is structurally valid PDF of the version its header states: the xref section (classic table or xref stream) gives for every object exactly the place where that object is stored, the trailer names the catalog, info dictionary and ID, and every indirect reference resolves to an object of the kind its position requires. Every object is syntactically valid (numbers in PDF notation, escaped names and strings, no duplicate dictionary keys), every stream has an exact Length and decodes with its declared filters, and object streams index their members exactly. This holds for every combination of features, document subtypes and the uncompressed debug mode.",
  ["histories", "configurations", "inputs"],
  "all sequences of public API calls ending in a successful write; all PDF/X, PDF/A and default subtypes; compressed and debug output; all numeric and string arguments the API accepts",
  "The unit tests render a few dozen fixed documents with Ghostscript, which silently repairs broken xrefs, duplicate keys and bad tokens; they never inspect the file structure and never vary the call history.",
  ["src/pdfwriter.cpp", "src/document.cpp", "src/objectformatter.cpp", "src/pdfcommon.cpp", "src/utils.cpp"],
  [("PdfWriter::write_pdf / write_cross_reference_* / object stream writing", "src/pdfwriter.cpp"), ("ObjectFormatter", "src/objectformatter.cpp"), ("PdfDocument::add_object", "src/document.cpp")],
  ["bytes of the file produced by capy_generator_write"])

p("C02", "Pages appear in order with the boxes and page attributes that were given",
  "The page tree of a written document contains exactly the pages that were added, in the order they were added, with correct counts and parent links. Each page carries the media, crop, bleed, trim and art box in force for it (its own custom properties where given, else the document defaults), its transition, its page transparency group and its viewports with their measures, and nothing that was set on another page.",
  ["histories", "inputs"],
  "all sequences of page creations with any subset of boxes set as defaults and per page, any transitions, transparency group properties, viewports and simple navigations, any numeric values",
  "Tests only create documents with one or two pages with default boxes; combinations of defaults and overrides and their leakage between pages are never checked.",
  ["src/document.cpp", "src/generator.cpp", "src/drawcontext.cpp", "src/pdfwriter.cpp", "src/capi.cpp"],
  [("delayed page / page tree objects", "src/pdfwriter.cpp, src/document.cpp"), ("PageProperties merge", "src/pdfcommon.cpp"), ("transition and viewport serialisation", "src/document.cpp, src/drawcontext.cpp")],
  ["page tree and page dictionaries of the written file"])

p("C03", "Content streams replay exactly the drawing operations that were issued",
  "The decoded content stream of every page, form XObject, transparency group and tiling pattern consists of exactly the operators issued on its drawing context by successful calls, in the order of the calls, each with the operands given to the call (numbers to within the output precision, colours clamped to their legal range). Operations that fail contribute nothing that changes the meaning of the stream.",
  ["histories", "inputs"],
  "all sequences of drawing, path, state, colour and text operations on every kind of drawing context, with any finite operands, interleaved between several contexts",
  "The tests draw a handful of fixed figures and compare a rendering with a fuzzy threshold; most operators occur at most once and operand values are small round numbers.",
  ["src/drawcontext.cpp", "src/drawcontext.hpp", "src/commandstreamformatter.cpp", "src/capi.cpp", "src/pdftext.hpp"],
  [("PdfDrawContext cmd_* methods", "src/drawcontext.cpp"), ("CommandStreamFormatter", "src/commandstreamformatter.cpp"), ("PdfText event serialisation", "src/drawcontext.cpp")],
  ["decoded content streams of the written file"])

p("C04", "Names used in content resolve to the resources the caller selected",
  "Every resource name that a content stream uses (fonts, images, form XObjects and groups, graphics states, shadings, patterns, colour spaces, property lists) is defined in that stream's own resource dictionary and refers to the very object the caller passed to the operation. Resource dictionaries contain no dangling entries and each entry has the type its category requires.",
  ["histories", "inputs"],
  "all histories that create several resources of every kind in any order and use any of them, repeatedly and from any number of contexts",
  "Tests use one or two resources per document, so that any mix-up of ids, object numbers or contexts cannot show.",
  ["src/drawcontext.cpp", "src/document.cpp", "src/generator.cpp"],
  [("PdfDrawContext used_* sets and build_resource_dict", "src/drawcontext.cpp"), ("PdfDocument *_object_number lookups", "src/document.cpp")],
  ["resource dictionaries and the objects they reference"])

p("C05", "Graphics state, text and marked content nesting is always balanced",
  "In every content stream of a written document q/Q, BT/ET and BDC|BMC/EMC are balanced and properly nested, because operations that would violate the nesting are rejected with an error and a context or text object with unclosed nesting cannot be committed. A rejected operation leaves the context able to continue and to be committed once the nesting is closed.",
  ["histories"],
  "all sequences of nesting, un-nesting, text and commit operations on page, form, group and pattern contexts and text objects, including ill-formed ones",
  "Tests contain only well-nested sequences; the rejection paths are reached by at most one example.",
  ["src/commandstreamformatter.cpp", "src/drawcontext.cpp", "src/capi.cpp", "src/pdftext.hpp"],
  [("CommandStreamFormatter nesting stack", "src/commandstreamformatter.cpp"), ("has_unclosed_state checks", "src/generator.cpp, src/document.cpp, src/capi.cpp")],
  ["error codes of calls; decoded content streams"])

p("C06", "Text strings given to the API are read back unchanged from the document",
  "Every human readable string accepted by the API (document title, author, creator, outline titles, annotation texts and URIs, form field names, values and options, structure item attributes, ActualText, page label prefixes, optional content and separation names, attachment names, collection entries, language tags, number format names) is recovered exactly, code point for code point, by decoding the corresponding PDF string or name. This holds for any valid UTF-8 (or ASCII where required), whether passed with explicit length or zero terminated, including delimiters, backslashes, control characters and characters outside the basic multilingual plane.",
  ["inputs"],
  "all valid UTF-8 strings (respectively ASCII strings) of any length at every string accepting entry point, with both ways of giving the length",
  "Tests use a few plain ASCII words and one or two accented titles.",
  ["src/utils.cpp", "src/pdfcommon.cpp", "src/objectformatter.cpp", "src/document.cpp", "src/pdfwriter.cpp", "src/cinterop.hpp", "src/capi.cpp"],
  [("utf8_to_pdfutf16be / pdfstring_quote / bytes2pdfstringliteral", "src/utils.cpp"), ("u8string / asciistring construction", "src/pdfcommon.cpp")],
  ["string and name objects in the written file"])

p("C07", "Invalid strings are rejected without changing the document",
  "Every entry point that takes text reports an error, and changes nothing, when the bytes are not valid UTF-8 (or not ASCII where ASCII is required), when a string of explicit length contains an embedded NUL, or when the length is negative other than the zero-terminated marker. Afterwards the object concerned behaves as if the failed call had not been made.",
  ["inputs", "histories"],
  "all byte strings, valid and invalid, at every string accepting entry point and at any point of a document's construction",
  "The tests contain no invalid UTF-8, no embedded NUL and no explicit negative length.",
  ["src/cinterop.hpp", "src/pdfcommon.cpp", "src/utils.cpp", "src/capi.cpp"],
  [("validate_utf8 / validate_ascii / u8string::from_cstr", "src/cinterop.hpp, src/pdfcommon.cpp, src/utils.cpp")],
  ["error codes; the document written afterwards"])

p("C08", "Raster images built from samples are stored losslessly",
  "An image built from raw samples is stored as an image XObject with the given width, height, bit depth and colour space whose decoded data are exactly the given samples, and its alpha channel, when given, as a soft mask with exactly the given alpha samples; interpolation and mask use are recorded as requested. Sample data whose size does not fit the declared geometry is rejected, and an image whose colour space equals the output colour space is never resampled or converted.",
  ["inputs", "configurations"],
  "all image sizes, 1 and 8 bit depths, gray/RGB/CMYK, any alpha depth, raw or pre-deflated input, any pixel bytes, all image properties",
  "Tests add three fixed images and compare renderings.",
  ["src/document.cpp", "src/generator.cpp", "src/capi.cpp", "src/utils.cpp", "src/pdfcommon.hpp"],
  [("PdfDocument::add_image_object / add_mask_image", "src/document.cpp"), ("RasterImageBuilder", "src/pdfcommon.hpp, src/capi.cpp"), ("flate_compress", "src/utils.cpp")],
  ["image XObjects of the written file; error codes"])

p("C09", "Image files are decoded to the samples a reference decoder produces",
  "Loading a PNG or TIFF file, from disk or from memory, yields an image whose size, colour space, ICC profile, pixel values and alpha values are those of the file as defined by its format, and a JPEG is embedded byte for byte with correct size and colour space. Variants the library does not support are rejected with an error rather than stored with wrong samples; loading from memory and from a file gives the same result.",
  ["inputs"],
  "all PNG files (every colour type, bit depth, interlacing, palette, tRNS, ICC), baseline TIFF files (photometric, samples, planar configuration, compression, byte order, strips) and baseline JPEG files",
  "Tests load five fixed files; widths not a multiple of 8, low bit depths, 16 bit data, interlacing or planar TIFF never occur.",
  ["src/imagefileops.cpp", "src/generator.cpp"],
  [("load_image_file / load_image_from_memory and per-format loaders", "src/imagefileops.cpp")],
  ["image XObjects of the written file after loading and adding an image"])

p("C10", "Colours and images are converted to the output colour space as ICC demands",
  "When an image is converted to a colour space on request, every sample equals the result of applying the applicable source and destination profiles with the requested rendering intent, and alpha, size and mask data are untouched. Conversions lacking a required profile or with an invalid one are reported as errors, and embedded profiles are stored byte for byte, each only once, with the right number of components; profiles of colour spaces that PDF does not permit are refused.",
  ["inputs", "configurations"],
  "all gray, RGB and CMYK images with and without embedded profile, all output colour spaces and rendering intents, all configurations of device profiles",
  "Tests convert a single image and look at the rendering.",
  ["src/colorconverter.cpp", "src/generator.cpp", "src/document.cpp", "src/capi.cpp"],
  [("PdfColorConverter::convert_image_to", "src/colorconverter.cpp"), ("image colourspace policy", "src/generator.cpp, src/document.cpp"), ("ICC profile dedup", "src/document.cpp")],
  ["image XObjects, ICC streams and error codes"])

p("C11", "Embedded font subsets draw the same glyphs with the same advances",
  "For every glyph shown from a loaded font (TrueType, CFF OpenType, TrueType collection, variable font at its chosen instance) the embedded subset contains, under the code used in the content stream, a glyph whose outline and advance width equal the original font's, composites included, and the PDF width array and font descriptor agree with them. Subsets contain a valid font program that an independent font engine loads without error.",
  ["inputs", "histories"],
  "all sets and orders of glyphs and code points shown from one or several loaded fonts, across any number of text operations and contexts; all supported font formats and variations",
  "Tests embed a few Latin letters from one font and compare renderings by eye-level thresholds.",
  ["src/fontsubsetter.cpp", "src/ft_subsetter.cpp", "src/cffsubsetter.cpp", "src/document.cpp", "src/pdfwriter.cpp"],
  [("FontSubsetter", "src/fontsubsetter.cpp"), ("generate_truetype_font / generate_cff_font", "src/ft_subsetter.cpp, src/cffsubsetter.cpp"), ("subset font objects and widths", "src/pdfwriter.cpp")],
  ["FontFile2/FontFile3 streams, W arrays and content streams, compared with FreeType on the source font"])

p("C12", "Shown text maps to the right glyphs and back to the original text",
  "Every piece of text shown through any text operation selects, for each character, the glyph that the font's own character map assigns to it (or the glyph id explicitly given), in order and with the kerning and spacing given, and the font's ToUnicode map together with ActualText yields back exactly the original text. Characters the font lacks and numbers that are not Unicode characters are reported as an error without corrupting the content, and the reported text width equals the sum of the glyph advances (with kerning where applied) at any size.",
  ["inputs", "histories"],
  "all texts over the fonts' repertoire including repeated, supplementary-plane, combining and ligature glyphs, all text sequences with kerning, raw glyphs, ligatures and ActualText, in any order across operations",
  "Tests show a few Latin words; extraction of text is never checked, nor more than one mapping for a glyph.",
  ["src/drawcontext.cpp", "src/fontsubsetter.cpp", "src/document.cpp", "src/pdfwriter.cpp", "src/generator.cpp", "src/pdftext.hpp"],
  [("serialize_charsequence / render_text", "src/drawcontext.cpp"), ("create_subset_cmap", "src/pdfwriter.cpp, src/utils.cpp"), ("get_glyph_subset", "src/fontsubsetter.cpp"), ("utf8_text_width", "src/generator.cpp")],
  ["content streams, ToUnicode CMaps, capy_generator_text_width"])

p("C13", "Arbitrary font files never crash the library",
  "Loading any sequence of bytes as a font file, and using the resulting font for text and writing the document when loading succeeds, either works or reports an error; it never reads or writes out of bounds, aborts, hangs or allocates without bound.",
  ["inputs"],
  "all byte sequences, in particular corrupted, truncated and maliciously modified TrueType, TrueType collection, variable and CFF fonts",
  "Tests only load well formed fonts; the repository's fuzz targets are not part of its tests and do not reach subsetting.",
  ["src/ft_subsetter.cpp", "src/cffsubsetter.cpp", "src/fontsubsetter.cpp", "src/bitfiddling.hpp", "src/mmapper.cpp"],
  [("bounds checked extraction", "src/bitfiddling.hpp"), ("parse_truetype_file, parse_cff_data", "src/ft_subsetter.cpp, src/cffsubsetter.cpp")],
  ["process status under AddressSanitizer/UBSan; error codes"])

p("C14", "Arbitrary image and profile data never crash the library",
  "Loading any sequence of bytes as an image (from file or memory) or ICC profile, and adding the result to a document that is then written, either works or reports an error; it never reads or writes out of bounds, aborts, hangs or allocates without bound. A successfully loaded image always yields an image object whose data size matches its dimensions.",
  ["inputs"],
  "all byte sequences, in particular corrupted and truncated PNG, TIFF, JPEG and ICC files",
  "Tests only load well formed files.",
  ["src/imagefileops.cpp", "src/colorconverter.cpp", "src/document.cpp", "src/generator.cpp"],
  [("per-format loaders with error recovery", "src/imagefileops.cpp")],
  ["process status under AddressSanitizer; error codes; image XObjects"])

p("C15", "Invalid ids, enum values and arguments are errors and leave the document usable",
  "A call given an id that does not exist, an enumeration value outside its range, an argument outside the documented domain, a number that PDF cannot represent (NaN, infinity), or made in a context or order that does not allow it returns an error code; the process never aborts and no exception or memory error escapes. After any number of failed calls the document can still be completed, and the written file is valid and describes the same document as the one obtained without the failed calls (at most an embedded font subset holds additional unused glyphs).",
  ["inputs", "histories"],
  "all histories of valid calls with invalid calls inserted anywhere: out-of-range ids and enum values, wrong context types, objects of another document, repeated commits and writes",
  "Tests check the error path of three or four calls.",
  ["src/capi.cpp", "src/document.cpp", "src/generator.cpp", "src/drawcontext.cpp", "src/errorhandling.hpp"],
  [("CHECK_INDEXNESS / CHECK_ENUM", "src/errorhandling.hpp"), ("API boundary exception conversion", "src/capi.cpp")],
  ["error codes; process status; bytes of the file written afterwards"])

p("C16", "Embedded files are retrievable byte for byte under their names",
  "Every embedded file is stored so that decoding its stream yields exactly the original bytes, with its name and subtype recorded, reachable through the document's EmbeddedFiles name tree (with keys in the order the format requires and no duplicates) and through any file attachment annotation that refers to it. Embedding two files under one name is an error that leaves the first intact.",
  ["inputs", "histories"],
  "all file contents including empty and binary ones, all names and subtypes, any number of files in any order, from memory or disk, with any attachments and collections",
  "Tests embed one or two small text files.",
  ["src/document.cpp", "src/pdfwriter.cpp", "src/generator.cpp", "src/capi.cpp"],
  [("PdfDocument::embed_file", "src/document.cpp"), ("name tree serialisation", "src/document.cpp, src/pdfwriter.cpp")],
  ["name tree, filespecs and embedded file streams of the written file"])

p("C17", "The outline tree mirrors the outlines that were added",
  "The document outline contains exactly the outlines that were added, each under its parent, siblings in order of addition, with consistent First/Last/Prev/Next/Parent links and Count values, and with the title, destination, colour and flags it was given. Destinations of outlines and links designate the page with the physical number given, with the position given.",
  ["histories", "inputs"],
  "all trees of outlines built in any order of addition, with any titles, destinations, colours and flags, before or after the pages they refer to are added",
  "Tests build one fixed outline.",
  ["src/document.cpp", "src/pdfwriter.cpp", "src/generator.cpp", "src/capi.cpp"],
  [("PdfDocument::create_outlines", "src/document.cpp"), ("destination serialisation", "src/document.cpp")],
  ["Outlines tree of the written file"])

p("C18", "The logical structure tree matches the structure items and marked content",
  "A tagged document's structure tree contains exactly the structure items added, under their parents in order, with their types (custom roles mapped through the role map) and attributes (title, language, alternative and actual text). Every marked content sequence of a page tied to a structure item has an MCID unique in its page, is listed by that item with the right page, and is found from the page through the parent tree; using a structure item more than once is rejected.",
  ["histories", "inputs"],
  "all trees of builtin and custom structure items and all assignments of items to marked content on any number of pages, via drawing contexts and text objects",
  "Tests build two fixed structure trees and never look at them.",
  ["src/document.cpp", "src/drawcontext.cpp", "src/pdfwriter.cpp", "src/generator.cpp"],
  [("structure parent tree and MCID bookkeeping", "src/document.cpp, src/drawcontext.cpp"), ("create_structure_root_dict", "src/document.cpp")],
  ["StructTreeRoot, structure elements, ParentTree and content streams"])

p("C19", "Annotations and form fields keep the attributes and relations they were given",
  "Each page lists exactly the annotations put on it, and each annotation has the subtype, rectangle, flags, text, destination or URI, line geometry and endings, attached file, appearance and 3D stream it was given. Form fields form the hierarchy that was declared, with type, names, flags, values and options as given, are reachable from the document's interactive form dictionary, and widgets and fields refer to each other.",
  ["histories", "inputs"],
  "all kinds of annotations and fields with any attribute values, any assignment of annotations to pages and of widgets to fields",
  "Tests create one fixed annotation or form per kind.",
  ["src/document.cpp", "src/pdfwriter.cpp", "src/drawcontext.cpp", "src/capi.cpp"],
  [("annotation and form field serialisation", "src/pdfwriter.cpp, src/document.cpp")],
  ["Annots, AcroForm and field dictionaries of the written file"])

p("C20", "Colour spaces, functions, shadings, patterns and states keep their parameters",
  "Every graphics state, soft mask, halftone, function (types 2, 3 and 4), shading (types 2, 3, 4 and 6), pattern, separation, Lab and ICC colour space in the file has exactly the parameters given to the API, and mesh shadings decode to the given vertices, flags and colours within the quantisation step. Device colour component values outside their legal range are clamped to it or rejected, and never stored outside.",
  ["inputs", "histories"],
  "all parameter values of all these objects and all reference graphs between them",
  "Tests build one or two of each with fixed parameters and compare renderings.",
  ["src/document.cpp", "src/generator.cpp", "src/utils.cpp", "src/capi.cpp", "src/pdfcommon.hpp"],
  [("serialize functions, shadings, patterns", "src/document.cpp"), ("mesh serialisation", "src/document.cpp, src/utils.cpp"), ("LimitDouble clamping", "src/pdfcommon.hpp")],
  ["the corresponding objects of the written file"])

p("C21", "Document level metadata and catalog entries record what was requested",
  "The info dictionary, XMP metadata, language, page layout and mode, page labels, optional content groups, collection (portfolio) schema and output intent of a written document say exactly what the caller configured, and are well formed (XMP is well-formed XML carrying the same title, author, creator and producer as were configured). What was not configured is absent.",
  ["inputs", "configurations", "histories"],
  "all combinations and values of document properties, page labelings, optional content groups, collections",
  "Tests set a title and author and only look at the rendering.",
  ["src/pdfwriter.cpp", "src/document.cpp", "src/xmlformatter.cpp", "src/utils.cpp", "src/capi.cpp"],
  [("catalog creation", "src/document.cpp"), ("info dictionary and XMP metadata", "src/pdfwriter.cpp, src/document.cpp, src/xmlformatter.cpp")],
  ["catalog, info dictionary, metadata stream of the written file"])

p("C22", "Standard conforming output declares its subtype and refuses what it forbids",
  "A document declared as PDF/X or PDF/A carries the file version, identification (info or XMP entries) and output intent with embedded profile that the declared subtype requires, for every subtype. Creating one without the mandatory profile or output intent identifier, or using images in a colour space the output does not permit, is rejected with an error.",
  ["configurations", "histories"],
  "all PDF/X and PDF/A subtypes, all combinations of output colour space, profiles, intents and content colour spaces",
  "Tests create one PDF/X and one PDF/A file and do not inspect them.",
  ["src/document.cpp", "src/pdfwriter.cpp", "src/generator.cpp", "src/drawcontext.cpp"],
  [("subtype dependent version and identification", "src/document.cpp, src/pdfwriter.cpp"), ("image format and colour restrictions", "src/document.cpp, src/generator.cpp")],
  ["header, info dictionary, XMP, OutputIntents; error codes"])

p("C23", "A failed or interrupted write never damages the destination file",
  "Writing replaces the destination atomically: whatever I/O operation fails and wherever the process dies, the destination name holds either its previous content (or nothing, if there was none) or the complete new document. Success is reported only when the complete document is in place, every failing I/O operation results in an error code, the data are synced to disk before the name is switched to them, other files stay as they are, and nothing is written before the document is asked to be written.",
  ["fault_sequences", "crash_points"],
  "a failure (error or short write) of, or a crash at, every single system call made while writing, for documents of any size and with or without an existing destination",
  "Tests never inject faults; they only ever see the success path.",
  ["src/pdfwriter.cpp"],
  [("temporary file, flush, fsync and rename", "src/pdfwriter.cpp")],
  ["destination directory contents and return code under injected faults"])

p("C24", "Committed content is independent of later changes and of other documents",
  "What was committed to a document (pages, objects, properties) is unaffected by later modification, reuse or destruction of the builder objects it came from, and by operations on other contexts of the same document. A draw context used again after its content was committed behaves like a new one: nothing of the earlier content sticks to it. Documents built concurrently or interleaved in one process, including on different threads, yield the same files as when built alone.",
  ["histories", "schedules"],
  "all interleavings of the construction of several documents and contexts, on one or several threads, with builder objects reused, mutated and destroyed at any point after commit",
  "Tests build one document at a time and never mutate or reuse a builder after committing it.",
  ["src/capi.cpp", "src/generator.cpp", "src/document.cpp", "src/drawcontext.cpp"],
  [("builder objects are copied at the API boundary", "src/capi.cpp, src/generator.cpp"), ("no shared mutable global state", "src/*.cpp")],
  ["bytes of the written files compared between histories"])

p("C25", "Output is reproducible and independent of the compression setting",
  "The same sequence of calls with the same environment produces the same file, apart from the random file identifier (and the date unless fixed by the environment). Switching on the uncompressed debug output changes only the encoding of streams: the decoded objects are the same.",
  ["histories", "configurations"],
  "all call histories, repeated in the same and in fresh processes, with and without debug output and fixed dates",
  "Tests never write a document twice or compare bytes.",
  ["src/pdfwriter.cpp", "src/document.cpp", "src/drawcontext.cpp"],
  [("deterministic serialisation order", "src/document.cpp, src/drawcontext.cpp"), ("debug output switch", "src/pdfwriter.cpp")],
  ["bytes and decoded objects of repeated writes"])

p("C26", "The Python and C++ bindings produce what the C API produces",
  "Every operation available through the Python module and through the C++ header has the same effect as the C function it wraps: the same history of calls gives the same document, failures surface as exceptions, and argument order, lengths, encodings, optional arguments and object lifetimes are passed on faithfully.",
  ["histories", "inputs"],
  "all histories expressible in the binding, with any arguments",
  "Binding tests exercise a subset of the methods with symmetrical or default arguments and no comparison with the C API.",
  ["python/capypdf.py", "include/capypdf.hpp", "include/capypdf.h.in", "src/capi.cpp"],
  [("ctypes wrappers", "python/capypdf.py"), ("C++ wrapper classes", "include/capypdf.hpp")],
  ["files produced by the same history through both interfaces"])

p("C27", "Destroyed objects give back everything they held",
  "Whatever an application builds and destroys, by any history of calls, successful and failing, leaves nothing behind: once every object it obtained has been destroyed, the memory, file descriptors and file mappings the library acquired for them are released, also when files were damaged, arguments invalid, a document was given up half way or its writing failed. Repeating a history in one process therefore does not make the process grow.",
  ["histories", "fault_sequences", "inputs"],
  "all histories that destroy what they created, including every error path of every loader and of the writer",
  "Tests run each history once in a short-lived process and never look at memory or descriptors.",
  ["src/capi.cpp", "src/generator.cpp", "src/document.cpp", "src/imagefileops.cpp", "src/mmapper.cpp", "src/ft_subsetter.cpp", "src/colorconverter.cpp", "src/pdfwriter.cpp"],
  [("destroy functions of the C API", "src/capi.cpp"), ("error paths of loaders that use C libraries (FreeType, libpng, libtiff, libjpeg, Little CMS)", "src/imagefileops.cpp, src/document.cpp, src/colorconverter.cpp"),
   ("files and mappings", "src/mmapper.cpp, src/pdfwriter.cpp")],
  ["heap in use, open descriptors and mappings after repeated identical histories"])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for e in P: f.write(json.dumps(e) + '\n')
print(len(P))
