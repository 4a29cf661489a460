"""The properties, in one place."""
GENERIC = ('Every obligation generated from the current source is discharged by z3 for all inputs and all iterations (loops by inductive '
           'invariants). Trusted: the engine in vc/, its models of CPython builtins, z3, partial correctness. ')
NOT_APPLICABLE = {}
PROPS = [
    dict(id='C01', title='RunLength decoding inverts every legal encoding',
         statement='Decoding a run-length stream yields exactly the bytes its literal and repeat runs denote, up to the end-of-data marker or '
                   'the end of input, and nothing after the marker influences the result.',
         forall='every sequence of complete runs of any length, with or without an end marker and any bytes after it',
         why='The tests decode one hand-made sample; the statement is about every run length, every order of runs and any trailing data.',
         files=['pdfmajor/parser/PDFStream/util.py'], mech=[('run-length decoding loop', 'pdfmajor/parser/PDFStream/util.py: rldecode')],
         observe=['decoded stream data'], note=GENERIC),
    dict(id='C02', title='ASCII85 decoding inverts the encoding and ignores white space',
         statement='Decoding an ASCII base-85 stream yields the bytes that were encoded, for data of any length including a final partial '
                   'group and the abbreviation for zero words; white space anywhere is ignored and decoding stops at the end marker.',
         forall='every well-formed sequence of groups of any length (no group above 2**32-1, no one-digit final group), every placement of other characters',
         why='Three sample strings are decoded by the tests; partial groups, zero words in every position and white space in groups are not.',
         files=['pdfmajor/utils/ascii85.py'], mech=[('base-85 group accumulation', 'pdfmajor/utils/ascii85.py: ascii85decode')],
         observe=['decoded stream data'], note=GENERIC),
    dict(id='C03', title='ASCIIHex decoding pairs digits and ignores white space',
         statement='Decoding an ASCII hexadecimal stream yields one byte per pair of hexadecimal digits, ignoring white space even inside a pair; an odd '
                   'final digit counts as if followed by 0, and everything after the end marker is ignored.',
         forall='every byte string of any length', why='Three samples are tested, none with a split pair or data after the end marker.',
         files=['pdfmajor/utils/ascii85.py'], mech=[('digit pairing', 'pdfmajor/utils/ascii85.py: asciihexdecode')],
         observe=['decoded stream data'], note=GENERIC),
    dict(id='C04', title='LZW decoding inverts the encoder for all code widths',
         statement='Decoding an LZW stream yields the concatenation of the table entries its codes denote, where codes grow from 9 to 12 bits as the table '
                   'fills, the clear code resets table and width, and the end code ends decoding.',
         over=['inputs', 'histories'], forall='every code sequence of any length and so every state of the table and every bit alignment',
         why='Two short samples never leave the 9-bit width, never clear in mid-stream and never run into the not-yet-defined code.',
         files=['pdfmajor/utils/lzw.py'],
         mech=[('bit reader', 'pdfmajor/utils/lzw.py: LZWDecoder.readbits'), ('table and width update', 'pdfmajor/utils/lzw.py: LZWDecoder.feed'),
               ('decoding loop', 'pdfmajor/utils/lzw.py: LZWDecoder.run')],
         state=[('table', 'decoded string of every code', 'LZWDecoder.table'), ('code width', 'bits of the next code', 'LZWDecoder.nbits')],
         observe=['decoded stream data'], note=GENERIC),
    dict(id='C05', title='PNG predictor reversal reconstructs the unpredicted rows',
         statement='Undoing PNG prediction yields, for every row, the bytes whose prediction with the row\'s own filter type (none, sub, up, average, Paeth) '
                   'over the previous row and the pixel to the left gives the stored row, with the pixel distance following the number of colour components.',
         forall='every sequence of complete rows, every sequence of row filter types, every number of columns and colour components',
         why='Only rows of the sample documents\' cross-reference streams (type up, one component) are decoded by tests.',
         files=['pdfmajor/utils/generic.py'], mech=[('row reconstruction', 'pdfmajor/utils/generic.py: apply_png_predictor')],
         observe=['decoded stream data'], note=GENERIC),
    dict(id='C06', title='CCITT Group 4 decoding inverts the two-dimensional code',
         statement='Decoding a Group 4 fax stream reproduces the bitmap encoded in it, for every width, every mix of pass, horizontal and vertical codes, '
                   'with or without byte-aligned rows, and with either polarity.',
         over=['inputs', 'configurations'], forall='every bitmap of any width and height, every reference line, position, colour and mode code; every option setting',
         why='The tests run single mode operations on a few rows of width 10; whole images, long run codes, byte alignment and polarity are never decoded.',
         files=['pdfmajor/parser/PDFStream/ccitt.py'],
         mech=[('code trees and bit walk', 'pdfmajor/parser/PDFStream/ccitt.py: BitParser'), ('mode operations', 'CCITTG4Parser._do_vertical, _do_pass, _do_horizontal'),
               ('row output', 'CCITTFaxDecoder.output_line'), ('parameters', 'ccittfaxdecode')],
         state=[('reference and current line', 'pixels of the previous and the growing row', 'CCITTG4Parser'), ('current position and colour', 'a0 and its colour', 'CCITTG4Parser')],
         observe=['decoded image data'],
         note=GENERIC + 'Each function has its own contract; that the contracts compose to the whole decoder is argued in DESIGN.md and cross-checked by encoding random images.'),
    dict(id='C07', title='Stream data is the filters applied in order to the decrypted bytes',
         statement='The data of a stream is its raw bytes, decrypted once when the document is encrypted, passed through every filter named in the stream dictionary in the listed order, '
                   'each with its own parameters and its PNG predictor undone right after it. Full and abbreviated filter names, single entries and arrays, direct and indirect '
                   'values mean the same; asking again gives the same data; a filter or predictor that is not supported raises instead of passing data through.',
         over=['inputs', 'configurations'], forall='every list of filters of any length with any parameters, every raw content, encrypted or not, direct or indirect entries',
         why='No test builds a stream with more than one filter, with indirect entries or with an unsupported filter; chains of any length are beyond examples.',
         files=['pdfmajor/parser/PDFStream/__init__.py', 'pdfmajor/parser/PDFStream/constants.py', 'pdfmajor/parser/PDFStream/util.py'],
         mech=[('decoding loop', 'PDFStream.decode'), ('filter list', 'PDFStream.get_filters'), ('filter names', 'pdfmajor/parser/PDFStream/constants.py')],
         state=[('data cache', 'decoded bytes, computed once', 'PDFStream.data'), ('raw data', 'bytes as read, dropped after decoding', 'PDFStream.rawdata')],
         observe=['return value of get_data'],
         note=GENERIC + 'The individual decoders are abstract functions here; they have their own properties. zlib is trusted.'),
    dict(id='C08', title='Tokens are a function of the bytes, whatever the read chunks',
         statement='The tokens read from a file or from the content streams of a page, with their positions and values, depend only on the bytes: names with # escapes, numbers, '
                   'keywords, literal strings with nested parentheses and escapes, hexadecimal strings, comments and white space come out as PDF defines them wherever the read '
                   'buffer ends. No token is lost at the end of the data, and the end of a content stream ends a token.',
         over=['inputs', 'configurations', 'histories'], forall='every byte sequence of any length, every buffer size, every starting position and every state left by earlier reads',
         why='The tests tokenise two samples inside one buffer; every way a token can straddle a buffer end is beyond examples.',
         files=['pdfmajor/parser/PSStackParser/PSBaseParser.py', 'pdfmajor/parser/PSStackParser/constants.py', 'pdfmajor/parser/PDFContentParser.py'],
         mech=[('state functions', 'PSBaseParser._parse_*'), ('chunked reading', 'PSBaseParser.nexttoken, fillbuf'), ('content streams', 'PDFContentParser.fillbuf'),
               ('character classes', 'pdfmajor/parser/PSStackParser/constants.py')],
         state=[('lexer state', 'state function and partial token', 'PSBaseParser._current_parse_func, _curtoken, paren, oct, hex'),
                ('buffer', 'piece of the file being read', 'PSBaseParser.buf, bufpos, charpos')],
         observe=['tokens returned by nexttoken', 'positions', 'lines returned by nextline and revreadlines'],
         note=GENERIC + 'int() and float() of a token text are the interpreter\'s own. Lines (nextline, revreadlines) and content streams are covered by concrete runs only.'),
    dict(id='C09', title='Nested objects are read back exactly as written',
         statement='Reading numbers, names, strings, booleans, null, references, arrays, dictionaries and procedures nested to any depth, from a file, an object stream or a content stream, '
                   'yields exactly the tree that was written: elements in order, every key with its own value, null entries dropped from dictionaries of files, and nothing of one object '
                   'leaking into another. Mismatched closing brackets are ignored, or refused in strict mode. An inline image yields its dictionary and the bytes between ID and the line '
                   'end before EI, and reading goes on after it.',
         over=['inputs', 'histories', 'configurations'], forall='every token sequence, every stack of open brackets of any depth, every data and buffer size',
         why='The tests read one nested sample; nesting of any depth, references in containers and image data with any bytes are beyond examples.',
         files=['pdfmajor/parser/PSStackParser/__init__.py', 'pdfmajor/parser/PDFParser.py', 'pdfmajor/parser/PDFContentParser.py'],
         mech=[('bracket stack', 'PSStackParser.start_type, end_type, nextobject'), ('references, null, endobj', 'PDFParser.do_keyword, PDFStreamParser.do_keyword'),
               ('inline images', 'PDFContentParser.do_keyword, get_inline_data')],
         state=[('open brackets', 'kind, position and collected objects of every open bracket', 'PSStackParser.context, curtype, curstack')],
         observe=['objects returned by nextobject'],
         note=GENERIC + 'The end of a dictionary is proved for up to 3 entries (bounded) with arbitrary surroundings; larger ones by concrete runs.'),
    dict(id='C10', title='Cross-reference sections say where every object is',
         statement='Every entry in use of a cross-reference table or cross-reference stream is found under its own object number with exactly the offset and generation, or object stream and index, '
                   'that the file states, for any subsections, field widths (0 to 8 bytes) and line ends; free entries and other numbers are not found, and the listed object numbers are exactly '
                   'those in use. The sections of a file are read from startxref on, newest first, a hybrid stream before the older sections.',
         over=['inputs', 'histories', 'configurations'], forall='every list of subsections, every field widths, table contents and chain of sections',
         why='The sample files have one or two sections with one subsection; several subsections, gaps, widths and chains of updates only show on other files.',
         files=['pdfmajor/parser/PDFDocument/PDFXRef.py', 'pdfmajor/parser/PDFDocument/__init__.py', 'pdfmajor/utils/generic.py'],
         mech=[('tables', 'PDFXRef.load, load_trailer'), ('streams', 'PDFXRefStream.load, get_pos, get_objids'), ('big-endian fields', 'nunpack'),
               ('chain of sections', 'PDFDocument.find_xref, read_xref_from')],
         state=[('sections', 'newest first', 'PDFDocument.xrefs'), ('table', 'object number to offset and generation', 'PDFXRef.offsets')],
         observe=['get_pos', 'get_objids', 'doc.xrefs'],
         note=GENERIC + 'Splitting a table line into fields, and finding startxref from the end, are covered by concrete runs only. Chains that loop are not claimed.'),
    dict(id='C11', title='An object number means its newest definition in the file',
         statement='Looking up an object number yields the object of the newest cross-reference section that has a readable entry for it, at an offset or in an object stream, in any order of lookups, '
                   'with or without caching, and the same object again when cached; a number without entry yields no object. A stream holds exactly the bytes its direct Length announces, and otherwise '
                   'those up to endstream. When startxref is wrong the objects of a file with one trailer are found by scanning.',
         over=['inputs', 'histories', 'faults', 'configurations'], forall='every list of sections and entries, every history of lookups, every position of a damaged startxref',
         why='Updates, object streams, cache states and damaged files combine freely; the sample files show a few fixed combinations.',
         files=['pdfmajor/parser/PDFDocument/__init__.py', 'pdfmajor/parser/PDFDocument/PDFXRef.py', 'pdfmajor/parser/PDFParser.py'],
         mech=[('lookup', 'PDFDocument.getobj, _getobj_parse, _getobj_objstm, _get_objects'), ('extent of streams', 'PDFParser.do_keyword'), ('recovery', 'PDFXRefFallback.load')],
         state=[('caches', 'objects and parsed object streams', 'PDFDocument._cached_objs, _parsed_objs'), ('sections', 'newest first', 'PDFDocument.xrefs')],
         observe=['getobj', 'PDFObjRef.resolve', 'PDFStream.rawdata'],
         note=GENERIC + 'Entries that an update marks as free do not hide older ones, which is not claimed; recovery by scanning is covered by concrete runs only.'),
    dict(id='C12', title='Every page comes once, in order, with inherited attributes',
         statement='Reading a document delivers the pages of its page tree once each, in document order, each with its own or its nearest ancestor\'s resources, boxes and rotation (0 to 359 degrees) '
                   'and its own content streams; without a page tree it delivers every page object once. maxpages delivers the first so many, pagenos exactly those asked for. '
                   'The pages can be iterated again, after stopping anywhere and after the file is closed, with the same result.',
         over=['inputs', 'histories'], forall='every finite page tree and every combination of own and inherited attributes, every selection, every history of iterations',
         why='Trees nest and attributes inherit in any combination, and partial iterations leave state behind; tests read a few complete documents once.',
         files=['pdfmajor/parser/PDFPage.py', 'pdfmajor/interpreter/__init__.py'],
         mech=[('page tree and fallback', 'PDFPage.create_pages'), ('page attributes', 'PDFPage.__init__'), ('selection', 'PDFPage.get_pages'), ('iteration', 'PDFInterpreter.__iter__')],
         state=[('loaded pages', 'kept after a complete run', 'PDFInterpreter')],
         observe=['PDFPage.get_pages', 'PDFInterpreter', 'PDFPage attributes'],
         note=GENERIC + 'Trees are finite (a node is not its own ancestor). maxpages together with pagenos is not claimed. Resolving references is by contract (C11).'),
    dict(id='C13', title='Encrypted documents give what was enciphered',
         statement='A document encrypted with the standard security handler (RC4 of 40 to 128 bits, AES 128, AES 256 of revision 5) opens with its user and its owner password and with no other; '
                   'strings, streams and stream dictionaries come out as they were before encryption, whatever object and generation they belong to, and metadata, identity filters and object streams are left as the standard says. '
                   'Permissions are bits 3, 4 and 5 of P; what is not supported is refused with PDFEncryptionError.',
         over=['inputs'], forall='every pair of passwords, key length, object number, generation and data; every value of P; every entry that is not supported',
         why='Keys depend on every byte of several entries and ciphers turn any slip into garbage; tests open a few sample documents.',
         files=['pdfmajor/parser/PDFDocument/PDFSecurityHandler.py', 'pdfmajor/parser/PDFDocument/__init__.py', 'pdfmajor/parser/PDFStream/util.py'],
         mech=[('keys and authentication', 'PDFStandardSecurityHandler, V4, V5'), ('deciphering', 'decrypt, decrypt_aes, decipher_all'), ('opening', 'PDFDocument._initialize_password')],
         state=[('file key', 'found when the document is opened', 'PDFStandardSecurityHandler')],
         observe=['PDFDocument.getobj', 'PDFStream.get_data', 'PDFDocument.is_printable, is_modifiable, is_extractable', 'exceptions'],
         note=GENERIC + 'MD5, SHA-256, RC4 and AES are assumed to be functions with the inverses of ciphers (hashlib, PyCryptodome). Passwords are latin-1 up to revision 4. Recovery of encrypted object streams by scanning is not claimed.'),
    dict(id='C14', title='Graphics state operators, q and Q, and colours',
         statement='Each operator of the graphics state (w J j M d ri i cm, Tc Tw Tz TL Tf Tr Ts, CS cs SC SCN sc scn G g RG rg K k) sets exactly its own parameter to its operands, cm multiplies the matrix from the left, rg and RG give components from 0 to 255, '
                   'and selecting a colour space sets its initial colour. q keeps the state and the matching Q, at any depth and whatever came between, gives back the transformation matrix and the text parameters as they were; a Q without q changes nothing. '
                   'Painted paths carry the line width and colours of the moment of painting and are not affected by later operators.',
         over=['inputs', 'histories'], forall='every sequence of operators with any numbers, colour families of any number of components, any nesting of q and Q',
         why='The state is a product of many fields copied by hand; a missing copy or a wrong field shows only when something changes between q and Q.',
         files=['pdfmajor/interpreter/commands/commands.py', 'pdfmajor/interpreter/commands/state/__init__.py', 'pdfmajor/interpreter/commands/state/PDFGraphicState/__init__.py', 'pdfmajor/interpreter/commands/state/PDFTextState/__init__.py', 'pdfmajor/interpreter/commands/utils.py'],
         mech=[('saving and restoring', 'save_state, restore_state, PDFGraphicState.copy, PDFTextState.copy'), ('operators', 'commands.py'), ('colour spaces', 'get_colorspace')],
         state=[('graphics state', 'set by operators, saved on a stack', 'PDFStateStack')],
         observe=['LTCurve.linewidth, stroke, fill, evenodd', 'PDFStateStack.graphics, text, t_matrix'],
         note=GENERIC + 'Numbers are real numbers. Known finding: Q does not bring back the parameters kept in PDFGraphicState (a stable test expects that). The text position inside a text object is not part of the saved state. gs is not supported by the library.'),
    dict(id='C15', title='Paths and the items painted from them',
         statement='Each path operator (m l c v y h re) adds its segments to the path, with all points transformed by the transformation matrix of that moment; a painting operator makes one item of the whole path, with the filling rule of the operator and closed when the operator closes it, and starts a new path; '
                   'n drops the path without painting; W and W* change nothing. The bounding box of the item is the smallest that contains, in page coordinates, the points its segments end at; the class is that of a vertical, horizontal or other line for one straight segment, '
                   'a rectangle for a closed quadrilateral whose sides are parallel to the axes of the page, and a curve for anything else. A path without points gives no item.',
         over=['inputs', 'histories'], forall='paths of any number and kind of segments, under any transformation matrices, coordinates within (2**31)-1 of the origin',
         why='Class and box depend on coincidences of transformed coordinates and on the kind of every segment; tests show a few upright paths.',
         files=['pdfmajor/interpreter/commands/commands.py', 'pdfmajor/interpreter/commands/state/Curves.py', 'pdfmajor/interpreter/commands/state/layout/__init__.py', 'pdfmajor/interpreter/commands/__init__.py', 'pdfmajor/utils/types.py'],
         mech=[('segments', 'curve_moveto .. curve_rect, CurvePath, CurvePoint'), ('painting', 'curve_complete_path, curve_close_complete, make_curve'), ('boxes', 'Bbox')],
         state=[('current path', 'extended by path operators, emptied by painting operators', 'PDFStateStack.curvestacks')],
         observe=['class, bbox, paths and evenodd of the items of PageInterpreter'],
         note=GENERIC + 'Numbers are real numbers. The box is that of the end points of the segments; control points of Bezier segments are not in it.'),
    dict(id='C16', title='Text is placed where the text operators put it',
         statement='Every character shown by Tj, TJ, \' and " is given, in order, with the text the font maps its code to and with the smallest box that contains its glyph rectangle after text rise, text matrix and transformation matrix; each glyph advances the position by its width times the font size, plus character spacing, '
                   'plus word spacing for the code 32 of single-byte fonts, scaled horizontally for horizontal writing and not for vertical writing; numbers in TJ move back by thousandths of the font size. BT, Td, TD, Tm, T*, \', " and TL set the line as the standard says. '
                   'Blocks of characters and text objects have the box of their characters; strings without characters show nothing.',
         over=['inputs', 'histories'], forall='strings and TJ arrays of any length, any values of the parameters and matrices, fonts of any metrics in both writing modes',
         why='Positions accumulate over whole text objects and depend on many parameters together; tests check the text and hardly ever where it is.',
         files=['pdfmajor/interpreter/commands/commands.py', 'pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py', 'pdfmajor/interpreter/commands/state/layout/LTCharBlock.py', 'pdfmajor/interpreter/commands/state/layout/LTTextBlock.py', 'pdfmajor/interpreter/commands/state/layout/LTChar.py', 'pdfmajor/utils/matrix.py'],
         mech=[('operators', 'begin_text, move_text_x, move_text_y, set_text_matrix, nextline, add_char_blocks, add_quoted_char_blocks, add_dbquoted_char_blocks'), ('glyphs', 'decode_text_seq'), ('items', 'LTTextBlock, LTCharBlock, LTChar')],
         state=[('text position', 'moved by operators and glyphs', 'PDFTextState.matrix, linematrix')],
         observe=['text and bbox of LTChar, LTCharBlock and LTTextBlock'],
         note=GENERIC + 'Numbers are real numbers. The glyph rectangle of a font is its width (or, for vertical writing, its bounding box width placed by the position vector) by its height from its descent, as the font object reports them; those reports are arbitrary here.'),
    dict(id='C17', title='JSON, YAML, XML and text output carry the whole document',
         statement='Converting a document to JSON, YAML or XML gives well-formed output that, read back, has every page in order with its number and size, and on it every item in order - curves with box, colours, segments and points, images, form objects with the items inside them, text blocks with their blocks of characters - with the values the interpreter gave, whatever the texts, names and numbers are '
                   '(a character XML does not have becomes U+FFFD; entries of a font descriptor never replace those of the block). Text output has the text of every character in order under the heading of its page. The options of a conversion (password, pages, caching, checks) reach the interpreter unchanged in every format.',
         over=['inputs'], forall='documents with any number of pages, items and characters, nested to any depth, with any texts, names and numbers',
         why='Whether output is well-formed depends on the characters of texts and names and on empty lists and absent values, which sample documents do not vary.',
         files=['pdfmajor/converters/__init__.py', 'pdfmajor/converters/json.py', 'pdfmajor/converters/yaml.py', 'pdfmajor/converters/xml.py', 'pdfmajor/converters/text.py', 'pdfmajor/converters/writers/json.py', 'pdfmajor/converters/writers/yaml.py', 'pdfmajor/converters/writers/xml.py'],
         mech=[('what is written', 'render_page, render, place_text_block, place_char_block, place_curve of each format'), ('how it is written', 'JSONMakerObject, JSONMakerArray, YAMLMakerObject, YAMLMakerArray, XMLMaker'), ('options', 'convert_file, convert_to_*')],
         state=[('nesting', 'entered and left with each object, list and element', 'levels_deep, keys, childrencount')],
         observe=['the output read back by a JSON, YAML or XML parser', 'arguments of PDFInterpreter'],
         note=GENERIC + 'json.dumps, xml.sax.saxutils, str.encode and the quoting of YAML texts (quoted) are trusted in the proofs and exercised by the probes; that pieces of text with the proved form nest to a well-formed document is the grammar of the format, by induction over the nesting. Text output is checked by the probes only.'),
    dict(id='C18', title='The codes of a string become the right characters with the right widths',
         statement='For every font, the codes of a string and their characters and widths are those the font says: simple fonts read single bytes, through ToUnicode (single codes, ranges and arrays; any UTF-16 text), else the differences and the base encoding, else the encoding of the font program; composite fonts read their character map (Identity, predefined, or embedded with ranges, single codes and another map as base) with codes of any length, '
                   'then ToUnicode, the map of the character collection, or the character map of an embedded TrueType font. Widths come from Widths or W and W2 in both forms, with MissingWidth, DW and DW2 for the rest, in either writing mode; specifications may be made of indirect objects; one object gives one font, and making a font changes no other.',
         over=['inputs'], forall='fonts with any encodings, differences, character maps and width tables of any length, and strings of any bytes',
         why='Encodings, maps and width tables have many forms which combine freely; sample documents use a few.',
         files=['pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py', 'pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py', 'pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py', 'pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py', 'pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py', 'pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/Type1FontHeaderParser.py', 'pdfmajor/parser/cmapdb/__init__.py', 'pdfmajor/parser/EncodingDB.py', 'pdfmajor/utils/encoding/__init__.py', 'pdfmajor/utils/encoding/latin_enc.py'],
         mech=[('font of a specification', 'get_font, PDFType1Font, PDFType3Font, PDFCIDFont'), ('widths', 'get_widths, get_widths2, PDFFont.char_width'), ('codes', 'CMap.decode, IdentityCMap.decode, CMapParser.do_keyword'), ('characters', 'to_unichr, EncodingDB.get_encoding, FileUnicodeMap.add_cid2unichr, TrueTypeFont.create_unicode_map')],
         state=[('maps', 'filled while the font is made', 'widths, disps, code2cid, cid2unichr, cid2unicode'), ('cache of fonts', 'one entry per object', 'cached_fonts')],
         observe=['decode, to_unichr, char_width, char_disp of a font'],
         note=GENERIC + 'Left out: the built-in metrics of the standard 14 fonts (used whatever Widths says), malformed character maps, codes no character map lists after a longer prefix of one, what a digit in an unknown glyph name means, and fonts whose program is CFF. In the proofs of sections of character maps nunpack, struct.pack and name2unicode are trusted functions of their arguments; the probes run them.'),
    dict(id='C19', title='Pages, images and form objects are where the page says',
         statement='A page has the size of its box whichever corners give it, with width and height exchanged when it is turned on its side, and all coordinates are those of the turned page with its lower left corner at the origin. An image takes the box of the unit square under the current matrix, whether an object or inline. A form object takes its box and paints under its matrix followed by the current one, '
                   'with its own resources or else those around it, starting from the graphics and text state around it and changing nothing of it, and has the items painted inside it, to any depth. Reading a page again gives the same items.',
         over=['inputs', 'histories'], forall='page boxes, rotations, matrices and forms nested to any depth, and pages read repeatedly or in part',
         why='Boxes away from the origin, turned pages and matrices of forms compose; the sample documents have pages upright at the origin and no forms with matrices.',
         files=['pdfmajor/interpreter/PageInterpreter.py', 'pdfmajor/interpreter/commands/__init__.py', 'pdfmajor/interpreter/commands/commands.py', 'pdfmajor/interpreter/commands/state/layout/__init__.py', 'pdfmajor/interpreter/commands/state/layout/LTXObject.py', 'pdfmajor/interpreter/commands/state/layout/LTImage.py', 'pdfmajor/utils/matrix.py', 'pdfmajor/utils/types.py'],
         mech=[('page box and rotation', 'PageInterpreter.__init__'), ('matrices', 'mult_matrix, apply_matrix_pt, translate_matrix'), ('boxes', 'Bbox.__init__, Bbox.from_points'), ('Do and EI', 'insert_xobject, insert_image, make_image, make_xobject'), ('inside a form', 'process_command_stream')],
         state=[('state of a form', 'a copy of the state around it', 'PDFStateStack'), ('state of a page', 'made for every run', 'PageInterpreter.state')],
         observe=['width and height of pages', 'boxes of items', 'items of form objects'],
         note=GENERIC + 'Coordinates are real numbers below 2**31. Left out: CropBox and UserUnit, which the interpreter does not use, clipping to the box of a form, and forms that paint themselves.'),
    dict(id='C20', title='HTML output shows every item of every page',
         statement='A document converted to HTML is well-formed in its encoding: parsed by any HTML parser, it has one element per page, numbered and sized as the page, and inside it, in order and nested as in the document, one element for every curve, image, form object, text block, run of characters and character. Texts, font names and all other values read back as they are in the document. Text and curves carry their position and size, colours are the colours of the document as CSS writes them, '
                   'and the path of a curve goes through the points of the curve, segment by segment, including curves that begin with the current point or end with their control point, on a view box of the shape of the curve.',
         over=['inputs'], forall='pages of any items, texts, fonts, colours and paths, in any encoding',
         why='Markup in texts, characters outside the encoding, flat curves, each kind of segment and each number of colour components take different ways; the tests only check that the sample documents convert.',
         files=['pdfmajor/converters/html.py', 'pdfmajor/converters/writers/html.py', 'pdfmajor/converters/__init__.py'],
         mech=[('elements', 'HTMLMaker.elm, singleton, write, write_raw'), ('items', 'render_page'), ('paths', 'render_curve, create_svg_path'), ('colours', 'get_color')],
         state=[('depth of the elements', 'number of open elements', 'HTMLMaker')],
         observe=['the HTML file, parsed'],
         note=GENERIC + 'Numbers are real; their decimal text is an uninterpreted function. Left out: where images and form objects are (the HTML does not say), how browsers lay the elements out, colours that CSS does not have, white space at the ends of a character.'),
    dict(id='C21', title='The file saved of an image holds its samples',
         statement='Saving an image writes one file, in the directory asked for, named for the image or as asked. JPEG data (under any other filters and encryption) are written as they are; an image of 1 bit, and one of 8 bits in DeviceGray or DeviceRGB, becomes a bitmap of 1, 8 or 24 bits that any reader reads back with exactly the samples of the image, line by line and pixel by pixel, 0 where the data end early; of any other image the decoded data are written, and the name says the size and depth. '
                   'Size, depth and colour space may be given by short or long names, directly or as indirect objects.',
         over=['inputs'], forall='images of any size, depth and colour space, with any filters and any data, too short or too long',
         why='Padding of lines, the order of components and lines, the colour table, and each filter and way of writing a parameter matter only for particular images; no test saves an image.',
         files=['pdfmajor/interpreter/commands/state/layout/LTImage.py', 'pdfmajor/BMPWriter/__init__.py'],
         mech=[('kind of file', 'LTImage.save_image'), ('header and colours', 'BMPWriter.__init__'), ('lines', 'BMPWriter.write_all, write_line')],
         state=[('place in the data', 'samples of the lines written', 'write_all')],
         observe=['the file'],
         note=GENERIC + 'File sizes below 2**31, sides below 2**20. PIL, which converts CMYK JPEG images, is trusted; CMYK JPEG images are left out, as are 1-bit images in colour, decode arrays and masks.'),
]
