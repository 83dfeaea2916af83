prop("C01", "Whatever is done to a document, the saved file is a whole, valid PDF",
 "After any sequence of calls the saved file can be read strictly by the book: startxref, the cross-reference table and the trailer are there, every entry points at its object, every object stands in the file once under its own number, the free entries are chained and /Size is one more than the highest number. "
 "No reference leads nowhere, every stream has the /Length and the coding it declares, no dictionary has a key twice, the page tree is a tree whose counts are right, page content consists of well-formed operators that use only fonts and images its page's resources define, and images have exactly the data their size calls for. "
 "A protected file is all that too, and opens with its user password.",
 ["inputs", "histories", "configurations"], "all sequences of calls, templates of different shapes, all numberings of the template's objects",
 "The tests write files that nobody reads back; whether a file is whole depends on the history of calls and the numbering of the template's objects.",
 ["pdft.go", "pdf_data.go", "pdf_font_data.go", "pdf_img_data.go", "crawl.go", "minigopdf/pdf_protection.go"],
 [("numbering and building", "pdft.go: build; pdf_data.go: maxID, push"), ("objects, cross-reference table and trailer", "pdft.go: toStream"), ("embedding", "pdf_data.go: injectContentToPDF, injectFontsToPDF, injectImgsToPDF; pdf_font_data.go: build")],
 "Bounds: any 3 (thorough: 4) of 13 calls on 4 templates; any numbering of 5 objects with numbers 2 to 14, with any of 5 calls made.")

prop("C03", "A page shows its original content followed by exactly the items added to it",
 "After saving, every page's content is the bytes the template had for that page, followed by exactly the texts and images that were inserted with that page's number, in the order of the calls; nothing of an item appears on any other page. "
 "This holds whether the template content is stored plain or compressed, in one stream or an array of streams, and when two pages share one content object. "
 "Insertions for page numbers that do not exist leave every page as it was.",
 ["inputs", "histories", "configurations"], "all page contents (bytes), all sequences of insertions over text and image, page numbers in and out of range, storage of the template content",
 "The tests insert a few items into fixed files and look only at whether saving returns an error; the contents and the sequence of insertions are unbounded.",
 ["pdf_data.go", "pdft.go", "content_text.go", "content_img_base64.go"],
 [("merge of added items into page content", "pdf_data.go: injectContentToPDF, extractStream, streamLength"), ("recording of insertions", "pdft.go: Insert, InsertImg")],
 "Bounds: 3 pages, 3 insertions, contents of up to 5 symbolic bytes, up to 3 streams per page.")

prop("C05", "Inserted text lands where, how large and in what colour it was asked for",
 "A text inserted in the cell (x, y, w, h), measured from the page's top-left corner, is drawn once, at the chosen size, with its baseline start at the position the alignment flags dictate (left/centre/right by the text's width, top/middle/bottom by the font's typographic ascender and descender), using the height of the page it is on. "
 "It is painted in exactly the colour given (black when none is given), independent of other texts. "
 "With cell borders on, four thin dotted lines outline the cell, with the underline style one bar of the cell's width lies at the font's underline position; otherwise neither appears.",
 ["inputs", "configurations"], "all coordinates and sizes in range, every combination of alignment flags, all RGB colours, border and style settings, page heights",
 "Tests call the function with a handful of coordinates and never read the position or colour back from the saved file.",
 ["content_text.go", "content_line_style.go", "minigopdf/cache_content_text.go", "pdft.go"],
 [("placement", "minigopdf/cache_content_text.go: calX, calY, write"), ("colour, border, underline", "minigopdf/cache_content_text.go: write, drawBorder, underline"), ("page height", "pdft.go: pageHeight")],
 "Bounds: coordinates are all multiples of 1/16 in 0..600, cell sizes up to 300, 64 flag combinations, 256^3 colours; texts up to 2 letters; media boxes starting at 16 places, with their corners in four orders; positions compared to the printed 0.005.")

prop("C16", "Saving is repeatable, faithful to the writer, and leaves the caller's data alone",
 "Saving a document does not change it: saving again gives the same bytes, and whatever is added after a save ends up as if the earlier save had not happened. "
 "Saving to a path and to a writer give the same bytes, and a writer that fails makes saving report an error. "
 "Template, image, font and password slices passed in by the caller are never modified.",
 ["histories", "inputs", "fault_sequences"], "all mixes of text, image, alpha image, duplicated page and protection; all positions at which a writer fails",
 "Tests save each document once, never compare two saves and never use a failing writer or a slice with spare capacity.",
 ["pdft.go", "pdf_font_data.go", "minigopdf/pdf_protection.go"],
 [("building a copy for saving", "pdft.go: build, toStream, SaveTo, Save"), ("font object buffers", "pdf_font_data.go: build"), ("password padding", "minigopdf/pdf_protection.go")],
 "Bounds: 2-page template, 2 rounds of edits, single-process.")

prop("C04", "Page operations act on the page list exactly as asked, and nowhere else",
 "Removing page n, keeping only page n, and inserting a copy of page n after a given position (a 0-based index, negative ones counting from the end) change the list of pages as the same operations change a list, however they are combined, also across saving and reopening; the page count reported, the page count in the file and the pages found by walking the page tree agree. "
 "Every page keeps its content, size and other entries, a copy shows what the original shows, and items added afterwards appear on exactly the page asked for, placed by that page's height. "
 "Page numbers and positions that do not exist are refused with an error and change nothing.",
 ["inputs", "histories", "configurations"], "all sequences of page operations with any page number and position, over flat and nested page trees, single and multiple content streams",
 "The tests perform one fixed operation on one fixed file; sequences, invalid numbers and tree shapes are unbounded.",
 ["pdft.go", "pdf_data.go"],
 [("page operations", "pdft.go: DuplicatePageAfter, RemovePage, RemoveOtherPages, GetNumberOfPage"), ("page tree", "pdf_data.go: setPages, setPageParent, getPages")],
 "Bounds: 3 or 4 pages, two operations (every integer of +-2^40 as number or position), page trees up to depth 3, contents of 3 symbolic bytes.")

prop("C12", "Added fonts and images are usable on every page; existing names keep meaning",
 "On every page, each added text refers to a font name that the page's resources define exactly once, as the font it was written with, and each added image to a name that stands for exactly that image. "
 "Every font, image or other resource name the template's page had still means the same object after saving. "
 "This holds for whatever names the template uses and wherever its resources stand: on the page, inherited, in objects of their own, shared between pages, empty or missing.",
 ["inputs", "configurations"], "all resource names (bytes), all storage forms of the resource dictionaries, several fonts and images, every enumeration order of the fonts",
 "Tests use one naming scheme and never look at the resource dictionaries; name clashes and storage forms are combinatorial.",
 ["pdf_data.go", "crawl_result_font.go", "crawl_result_x_object.go", "crawl.go", "pdft.go"],
 [("font resources", "pdf_data.go: injectFontsToPDF; crawl_result_font.go"), ("image resources", "pdf_data.go: injectImgsToPDF; crawl_result_x_object.go")],
 "Bounds: 2 pages, names with up to 2 symbolic characters after the prefix, 2 fonts and 2 images added.")

prop("C06", "Wrapped text keeps every word, in order, in lines that fill the width",
 "Text wrapped into a width shows all words of the text, in order, none twice, each line trimmed of surrounding blanks and no line empty. "
 "A line is as long as it can be: a token goes to the next line exactly when the line with it (blanks counted) would be wider than the width; only a token that is too wide on its own may stick out. "
 "Lines are 1.2 times the font size apart, every line aligned and coloured as a single text would be in the same cell; with Middle the block of n lines is moved up by n*0.6*size - size/2, with Top or Bottom the first line stands where a single text would. "
 "Without a breaker the text is inserted as one line; a breaker's error, or measuring and wrapping with no font chosen, is an error, and nothing is drawn.",
 ["inputs", "configurations"], "all token sequences a breaker may return, all widths and positions, every alignment",
 "The tests wrap one Thai paragraph and never look at the lines.",
 ["pdft.go", "textbreak/basic_textbreak.go"],
 [("wrapping", "pdft.go: InsertWrapText, MeasureTextWidth")],
 "Bounds: up to 4 tokens, any width 0..300 (multiples of 1/16), any cell position, sizes 10 and 20.")

prop("C08", "Each character is drawn with the glyph the font's character map assigns it",
 "For every character, the glyph looked up and shown is the one the font's character map gives: format 4 segments with deltas or glyph id arrays for the basic plane, format 12 groups for characters beyond it. "
 "A character of the basic plane the font does not have is shown as glyph 0; one beyond the basic plane that the font does not have is refused with an error, and a text refused leaves the document unchanged. "
 "The glyphs of a text are shown in the order of its characters.",
 ["inputs", "configurations"], "all characters, all segment deltas, glyph id arrays and format 12 groups",
 "Tests draw a few Thai and Latin letters in a few fonts and do not read the glyph numbers back.",
 ["minigopdf/subset_font_obj.go", "minigopdf/cache_content_text.go", "minigopdf/fontmaker/core/ttf_parser.go", "pdf_font_data.go"],
 [("lookup", "minigopdf/subset_font_obj.go: CharCodeToGlyphIndex, charCodeToGlyphIndexFormat4, charCodeToGlyphIndexFormat12, AddChars"), ("show", "minigopdf/cache_content_text.go: createContent")],
 "Bounds: any of the 2^16 basic characters and characters up to 0x10FFFF; 3 segments with any delta and up to 3 array entries; 2 groups.")

prop("C09", "Measured width, declared widths and drawn space agree with the font",
 "The width reported for a text is the sum of its characters' advances in the font (each in whole thousandths of the size; glyphs beyond the metrics table take the last metric) plus the kerning adjustments the caller's override asks for. "
 "The widths declared in the saved font are these advances, so that the space the text takes on the page equals the width measured, and alignment uses that width. "
 "A kerning override is asked for each pair of neighbours and moves exactly the pairs it answers for; a text-rise override raises exactly the characters it answers for; neither affects other fonts or later texts.",
 ["inputs", "configurations", "histories"], "all advances, units per em, kerning values, rise values and texts",
 "Tests compare no widths; advances and kerning values are numeric and unbounded.",
 ["minigopdf/cache_content_text.go", "minigopdf/subset_font_obj.go", "minigopdf/cid_font_obj.go", "minigopdf/content_obj.go", "pdft.go"],
 [("measuring and showing", "minigopdf/cache_content_text.go: createContent"), ("widths", "minigopdf/subset_font_obj.go: CharWidth, GlyphIndexToPdfWidth; minigopdf/cid_font_obj.go: build"), ("units", "minigopdf/content_obj.go: convertTTFUnit2PDFUnit")],
 "Bounds: texts up to 4 characters, any 16-bit advance, four units-per-em values, kerning of three or four digits and the extremes.")

prop("C10", "The embedded font draws the shown glyphs exactly as the original font would",
 "The font program saved for an added font is a well-formed TrueType file with correct table checksums, in which every glyph that is shown, glyph 0, and every glyph these are composed of (through any number of levels) has the outline bytes it has in the original font, and the tables they depend on (head, hhea, hmtx, maxp, cvt, fpgm, prep) are unchanged. "
 "It has a location for every glyph, and glyph numbers mean the same as in the original. "
 "The font descriptor gives the font's name, bounding box, ascent, descent, italic angle and flags in thousandths of an em.",
 ["inputs", "configurations"], "all glyph outlines, all composite structures and flags, short and long locations, all metric values, presence of optional tables",
 "The tests embed a few fonts and never read the embedded program; composites of composites or shared glyphs do not occur in them.",
 ["minigopdf/pdf_dictionary_obj.go", "minigopdf/subfont_descriptor_obj.go", "minigopdf/fontmaker/core/ttf_parser.go", "minigopdf/cid_font_obj.go"],
 [("subsetting", "minigopdf/pdf_dictionary_obj.go: makeFont, makeGlyfAndLocaTable, completeGlyphClosure"), ("descriptor", "minigopdf/subfont_descriptor_obj.go: build"), ("reading the font", "minigopdf/fontmaker/core/ttf_parser.go: Parse")],
 "Bounds: 8 glyphs, three of them composite with up to two components, texts up to 3 characters, outline bytes and 16-bit metrics symbolic.")

prop("C11", "The text added to a page can be read back from the saved file",
 "Each added font carries a map from the codes shown to Unicode that is well-formed (code space covering every code shown, blocks of at most 100 entries, UTF-16) and leads from each code to the character it was shown for. "
 "So extracting text from a page gives back the inserted text, for characters of the basic plane and beyond it; a character that shares its glyph with another may come back as that other one.",
 ["inputs", "histories"], "all characters of Unicode and glyph numbers, texts over several calls, any number of characters",
 "Tests never extract the text; characters beyond the basic plane and fonts with many characters are not sampled.",
 ["minigopdf/unicode_map.go", "minigopdf/map_of_character_To_glyph_index.go", "pdf_font_data.go"],
 [("map", "minigopdf/unicode_map.go: build"), ("characters used", "minigopdf/map_of_character_To_glyph_index.go")],
 "Bounds: any two characters with any 16-bit glyph numbers; texts of up to 3 characters over all UTF-8 lengths; up to 260 characters in one font.")

prop("C13", "An inserted image shows the pixels of its file, where and as large as asked",
 "A JPEG (grey, RGB or CMYK) or PNG (grey, RGB, palette, with or without transparency, 1 to 8 bits, not interlaced) inserted in any of the three ways is found in the saved file with its size, colours, every pixel and its transparency: JPEG data are the file's bytes, PNG samples and palette are those of the file, an alpha channel becomes a mask, a transparent colour a colour key. "
 "It is drawn once, upright, in the rectangle (x, y, w, h) measured from the page's top-left corner. "
 "Files that are truncated, not images, or of an unsupported kind are refused with an error and leave the document as it was.",
 ["inputs", "configurations"], "all pixel data, palettes, line filters, chunk layouts, sizes, positions; truncation at any byte",
 "Tests insert a few image files and never read them back from the output.",
 ["minigopdf/image_obj_parse.go", "minigopdf/image_obj.go", "minigopdf/smask_obj.go", "minigopdf/device_rgb_obj.go", "content_img_base64.go", "pdf_image_data.go", "pdft.go"],
 [("reading images", "minigopdf/image_obj_parse.go: paesePng, parseImgJpg, buildImgProp"), ("objects", "minigopdf/image_obj.go: build; minigopdf/smask_obj.go: build; pdft.go: InsertImg, putPalette"), ("drawing", "content_img_base64.go: toSteram")],
 "Bounds: PNG of 3x2 symbolic pixels in 8 formats and all filters, a few large concrete ones, JPEG of any 4- and 5-digit size with 4 symbolic data bytes; image headers are decoded by a model of image.DecodeConfig. Known finding: partial transparency of palette colours.")

prop("C14", "The image cache stores equal images once and never mixes up different ones",
 "Images inserted through the cache are stored once per distinct file content, however often and on whatever pages they are used, also across saves; each insertion shows exactly the image passed to it at its own place, whatever other images were inserted, with or without the cache, and even if the caller reuses the byte slice.",
 ["inputs", "histories"], "all sequences of cached and uncached insertions, all pairs of image contents",
 "Tests use the cache with one image.",
 ["pdft.go", "pdf_data.go"],
 [("cache", "pdft.go: InsertImgWithCache"), ("objects", "pdft.go: build")],
 "Bounds: 3 insertions (4 in the thorough tier) over 4 images, and 2 insertions of images with any pixel; and of files of 1400 bytes that differ in any one of five bytes or in length; MD5 is taken to be free of collisions.")

prop("C15", "A protected file opens with its passwords and decrypts to the unprotected file",
 "Once a protection is set, at any point before saving, the saved file has a 40-bit standard encryption dictionary that accepts the user password; the owner password leads to the user password; its permissions are exactly those asked for. "
 "Decrypted with that password as the PDF standard says, every stream and every string of every object - of the template, and of added fonts, images, masks and palettes - is the one the file has when saved without protection, and nothing else differs. "
 "Without a protection the file is not encrypted.",
 ["inputs", "configurations", "histories"], "all page contents and strings, all passwords and permissions, all points at which protection is set",
 "The tests protect one file and never decrypt it.",
 ["pdf_obj_data.go", "minigopdf/pdf_protection.go", "minigopdf/encryption_obj.go", "pdft.go"],
 [("encryption of objects", "pdf_obj_data.go: encrypt, encryptStrings"), ("keys", "minigopdf/pdf_protection.go: setProtection, createOValue, createUValue, objectkey"), ("dictionary", "minigopdf/encryption_obj.go: build, escape")],
 "Bounds: contents of 3 symbolic bytes plus line breaks at the ends, strings of 2 symbolic bytes and 14 shapes, 24x12 passwords of all length classes, 16 permission sets; objects with nine numbers from 10 to 512; randomly made owner passwords are one fixed value.")

prop("C07", "The basic text breaker splits at blanks and loses nothing",
 "For every text, the tokens of BasicTextbreak joined together are the text (bytes that are not UTF-8 read as U+FFFD), each token is a single blank or contains none, words are broken at blanks only, and there is no error. "
 "Wrapped with it into any width, the lines on the page hold the words of the text whole and in order, each line below the one before.",
 ["inputs"], "all texts, all widths",
 "The tests break two short ASCII texts; multi-byte, invalid and blank-only texts are unbounded.",
 ["textbreak/basic_textbreak.go", "pdft.go"],
 [("breaking", "textbreak/basic_textbreak.go: BreakTextToToken"), ("wrapping", "pdft.go: InsertWrapText")],
 "Bounds: any text of up to 4 bytes (5 in the thorough tier); wrapping of ten texts into any width 0..60.")

prop("C18", "Rendering by field names equals inserting by hand with the field's settings",
 "A Render made with a list of fields puts a text or image given for a key exactly where, in which font, size, alignment and wrapping the field of that name says (the last one, when a name repeats), as the corresponding direct calls would; a key without a field does nothing and is no error. "
 "Errors of font, breaker, image and template are reported and can be told by their cause, and a failed call draws nothing. "
 "The design view shows every field's cell, outlined, with its key.",
 ["inputs", "configurations"], "all field lists with repeated, missing and empty keys, all sequences of texts and images",
 "The test only renders the design view of two fields and looks at the returned error.",
 ["render/render.go", "render/field_info.go"],
 [("fields", "render/field_info.go: toMap"), ("rendering", "render/render.go: Text, ImgBase64, ShowDesignView, NewRender")],
 "Bounds: up to 3 fields with 3 possible keys, 2 calls with 4 possible keys, every map order.")

prop("C17", "A call that cannot be carried out says so and leaves no trace",
 "Every call that cannot be carried out - unknown or doubled font name, a file that is missing, no font or no image, a character the font cannot show, a page that does not exist, a failing text breaker, a path that cannot be written - returns an error, the documented one where one is documented. "
 "The document then shows and holds exactly what it would without that call, wherever among other calls it was made. "
 "A value used to open another file starts a new document: nothing of the earlier one remains.",
 ["histories", "inputs", "fault_sequences"], "all pairs of 19 mistakes at all places of a session; all sessions before opening another file",
 "The tests make no call that fails.",
 ["pdft.go", "pdf_font_data.go", "pdf_parse_font.go", "pdf_image_data.go"],
 [("errors", "pdft.go: Insert, InsertWrapText, AddFont, AddFontFrom, SetFont, KernOverride, TextriseOverride, MeasureTextWidth, page operations"), ("opening", "pdft.go: OpenFrom")],
 "Bounds: two mistakes out of 19 at three places in a session of four calls.")

prop("C02", "What an edit does not concern survives it unchanged",
 "Whatever is done to a document - texts, images, copied, removed or moved pages, protection - every object of the template that is not the resources or the last content of a page keeps its value, and its data if it is a stream, byte for byte. "
 "A page that is kept keeps every entry but those that name its parent, contents and resources, and its resources keep every entry but the fonts and images added; a copied page has the entries of the original. "
 "This holds for values of every kind: strings with any bytes, names, numbers, arrays, nested dictionaries, comments between them, and streams that contain the words PDF files are made of.",
 ["inputs", "configurations"], "all bytes in strings and streams, all kinds of values, all edits",
 "Tests never compare the output with the template; an unusual annotation, link or name is out of their sight.",
 ["pdf_obj_property_data.go", "pdf_obj_data.go", "pdf_data.go", "crawl.go", "crawl_result.go", "pdft.go"],
 [("reading dictionaries", "pdf_obj_property_data.go: readProperties, normalizeDictionary, parseProps"), ("writing them", "pdf_obj_data.go: setProperties; crawl_result.go: String"), ("finding objects", "pdf_obj_data.go: parse"), ("writing objects", "pdft.go: toStream")],
 "Bounds: 9 kinds of values with 1 to 3 symbolic bytes each, at four places of a page and in an object of its own; streams of 2 symbolic bytes around 12 words; 6 kinds of edits.")

prop("C19", "The physical layout of a template makes no difference",
 "Two files that hold the same document give the same result under the same calls, however they are laid out: with any white space or comments between tokens, any ends of line, objects in any order and with any numbers, values in place or in objects of their own, one cross-reference section or several, in subsections, with free entries, linearised, and as the result of incremental updates - the last version of an object and of the trailer is the one that counts.",
 ["inputs", "configurations"], "all white space, all combinations of two layout variations, all sets of objects an update replaces",
 "The test templates have a handful of layouts.",
 ["pdf_parse.go", "xref_data.go", "regex.go", "pdf_obj_property_data.go", "pdf_obj_data.go", "pdf_data.go"],
 [("cross-reference table", "pdf_parse.go: parseXref, parseTrailer, parseObjOnlyKeywordN; xref_data.go: parse"), ("objects", "pdf_obj_data.go: parse"), ("values", "pdf_obj_property_data.go: readProperties")],
 "Bounds: a document of 8 objects; white space of one or two arbitrary characters in one object at a time; pairs (thorough: triples) of 9 layout variations; one update (thorough: two) of any of the objects. Out: cross-reference and object streams, object generations other than 0 (both refused on opening), /Kids in an object of its own.")

prop("C20", "No damaged template, font or image makes the library crash or hang",
 "Whatever is wrong with the bytes of a template, a font file or an image - a byte changed anywhere, the file cut off anywhere, numbers that point nowhere, references to objects that do not exist, a page tree that runs in circles - opening it and every call after that (adding fonts, texts, images, copying and removing pages, measuring, saving) comes to an end and returns; it never panics.",
 ["inputs"], "any value of any one byte, and any cut",
 "The tests only read good files.",
 ["pdf_parse.go", "pdf_data.go", "crawl.go", "pdf_obj_data.go", "pdf_obj_property_data.go", "minigopdf/pdf_dictionary_obj.go", "minigopdf/subset_font_obj.go", "minigopdf/fontmaker/core", "minigopdf/image_obj_parse.go"],
 [("templates", "pdft.go: OpenFrom and all calls after it"), ("fonts", "minigopdf/fontmaker/core/ttfparser.go: parse; minigopdf/pdf_dictionary_obj.go: makeFont"), ("images", "minigopdf/image_obj_parse.go: parseImg")],
 "Bounds: one template of 12 objects (1 kB), one font of 3 glyphs, 4 images; one damaged byte of any value (a few values where it is a number of characters or glyphs), or one cut.")

prop("C21", "A document drawn from scratch is a whole, valid PDF, however often written",
 "Whatever is drawn with the library's own document writer (minigopdf) - pages with or without a size of their own or anything on them, texts, cells, shapes, images, fonts, document information, protection - the file can be read strictly by the book: header, objects, cross-reference table, trailer, page tree, lengths, resources, operators, image data. "
 "It has the pages that were added, in that order, each of its own size and showing exactly what was drawn while it was the last one. "
 "Writing does not change the document: a file written after more was drawn is the file it would have been without the earlier writing, through whatever call it is written, compressed or not.",
 ["inputs", "histories", "configurations"], "all sequences of drawing calls, all page sizes, all points at which the file is written",
 "The tests write sample files for the eye; nothing reads them, none is written twice.",
 ["minigopdf/gopdf.go", "minigopdf/content_obj.go", "minigopdf/page_obj.go", "minigopdf/pages_obj.go"],
 [("writing", "minigopdf/gopdf.go: compilePdf, xref, prepare, Read, WritePdf"), ("pages and contents", "minigopdf/gopdf.go: AddPageWithOption; content_obj.go: build; page_obj.go, pages_obj.go: build")],
 "Bounds: any 3 (thorough: 4) of 16 calls, protected or not; up to 4 pages with sizes of three digits; a writing after any of the calls.")

prop("C22", "Shapes are drawn where, how and in the order they were asked for",
 "A line, rectangle, curve or oval drawn on a page appears once, with exactly the corners and control points given, measured from the page's top-left corner, stroked, filled or both as its style says, and later shapes lie over earlier ones. "
 "It has the line width, the dash type, the stroke and fill colour or grey that were set last before it on that page, and a setting concerns nothing drawn before it.",
 ["inputs", "configurations", "histories"], "all coordinates and sizes in range, all colours and grey levels, all widths and types of lines, all orders of settings",
 "The tests draw a few shapes and look at no output.",
 ["minigopdf/gopdf.go", "minigopdf/content_obj.go", "minigopdf/cache_content_line.go", "minigopdf/cache_content_rectangle.go", "minigopdf/cache_content_curve.go"],
 [("shapes", "minigopdf/gopdf.go: Line, RectFromUpperLeftWithStyle, RectFromLowerLeftWithStyle, Curve, Oval; content_obj.go: Append*"), ("state", "minigopdf/gopdf.go: SetLineWidth, SetLineType, SetGrayFill, SetGrayStroke, SetStrokeColor, SetFillColor")],
 "Bounds: two shapes of 6 kinds in a row, three shapes with two settings between them; coordinates and sizes are multiples of 1/16 within +-600, page heights any; one page after another.")

prop("C23", "Texts and cells flow over the page as the calls say",
 "Every character written with Text or in a cell stands where the writing position was - moved by the widths of the characters before it, by the cells' sizes and directions, by line breaks, by margins and by setting it - in the font, size and colour chosen at that time; colours of texts do not reach shapes, nor the other way round. "
 "In a cell the text is aligned as asked, and the borders asked for and the underline of the style are drawn where the cell's edges and the font's underline are. "
 "A page begins at the margins. Text without a font, or with characters the font has not, is an error and draws nothing.",
 ["inputs", "histories", "configurations"], "all coordinates, cell sizes, advances, alignments, borders, colours and sizes, all sequences of calls",
 "The tests produce pages for the eye; that two texts with different alignments, colours or a moved position come out right is not looked at.",
 ["minigopdf/gopdf.go", "minigopdf/content_obj.go", "minigopdf/cache_content_text.go"],
 [("position", "minigopdf/gopdf.go: Text, CellWithOption, Br, SetX, SetY, margins; content_obj.go: AppendStreamSubsetFont"), ("joining of texts", "minigopdf/content_obj.go: AppendStreamSubsetFont; cache_content_text.go: isSame"), ("placing", "minigopdf/cache_content_text.go: calX, calY, write, drawBorder, underline")],
 "Bounds: 3 calls of 8 kinds in a row; one cell with any option; texts of up to 2 letters; advances symbolic; coordinates multiples of 1/16; two pages.")

prop("C24", "Images drawn in a new document are where they were put and show the picture",
 "An image drawn at (x, y) in a rectangle appears there once, on its page only, upright, and shows exactly the picture given: size, samples, colour space, transparency, whether held by bytes or by a reader, whether the document is protected or not. "
 "A picture used many times is in the file once, and different pictures are never mixed up. "
 "Data that are no image are an error and leave the document as it was.",
 ["inputs", "histories", "configurations"], "all samples, sizes and kinds of pictures, places and rectangles, all orders of uses",
 "The tests draw one or two image files and look at no output.",
 ["minigopdf/gopdf.go", "minigopdf/image_holder.go", "minigopdf/image_obj.go", "minigopdf/smask_obj.go", "minigopdf/cache_content_image.go"],
 [("placing", "minigopdf/gopdf.go: ImageByHolder; content_obj.go: AppendStreamImage"), ("identity of pictures", "minigopdf/image_holder.go: newImageBuff; gopdf.go: ImageByHolder"), ("data", "minigopdf/image_obj.go, smask_obj.go: build, writeProps")],
 "Bounds: three uses of three pictures on two pages, every coordinate any multiple of 1/16; PNG files of 2 pixels of any samples of 5 kinds; JPEG files of any size.")

prop("C25", "The information and the protection of a new document are what was set",
 "The document information in the file holds exactly the texts that were set - any characters, beyond the 16-bit range too - and the moment of creation with its zone, and nothing else. "
 "A protected document opens with the user password and is then, string by string and stream by stream, the one without protection; the owner password leads to the same; the permissions are the ones given.",
 ["inputs", "configurations"], "all texts, zones, permissions, kinds of content and points of protection",
 "The tests set some information and a password, and read nothing back.",
 ["minigopdf/gopdf.go", "minigopdf/pdf_protection.go", "minigopdf/device_rgb_obj.go", "minigopdf/cid_font_obj.go"],
 [("information", "minigopdf/gopdf.go: SetInfo, bindInfo, infodate"), ("protection", "minigopdf/pdf_protection.go: setProtection, objectkey; every object's build")],
 "Bounds: texts of up to two characters (one of them symbolic), 4 zones; two fonts, images of all kinds; 6 pairs of passwords, 16 permissions.")

prop("C26", "Text is kerned with what the font's kerning tables say, where asked for",
 "With kerning switched on for a font, two neighbouring characters are moved by exactly what the font's tables for horizontal text amount to - several tables add up, one that overrides replaces, tables of other formats or for other uses are passed over - and measured width, alignment and writing position go by it; other pairs, fonts and documents without kerning are not moved. "
 "A function that overrides kerning is asked once for each pair of neighbours, sees the characters, the glyphs and the font's own value, and what it returns is what is drawn.",
 ["inputs", "configurations"], "all values of pairs, all combinations of kinds of tables, all texts over letters with and without pairs",
 "One test checks two pairs of one font file.",
 ["minigopdf/fontmaker/core/ttfparser_kern.go", "minigopdf/cache_content_text.go", "minigopdf/subset_font_obj.go", "minigopdf/content_obj.go"],
 [("reading", "minigopdf/fontmaker/core/ttfparser_kern.go: Parsekern, parsekernSubTable, parsekernSubTableFormat0"), ("applying", "minigopdf/cache_content_text.go: createContent, kern; content_obj.go: convertTTFUnit2PDFUnit")],
 "Bounds: up to 2 (thorough: 3) tables of 6 kinds with up to 3 pairs; the font's own value any 16-bit number, drawn values any of three digits and some extremes; texts of up to 5 letters; 1000 and 2048 units per em.")
