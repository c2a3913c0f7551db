prop('M02', 'Objects and their copies give back everything they own exactly once',
 'Everything an object of any class of the library owns (memory, shared objects, file handles, system resources) is owned by exactly one object, or shared by counting: copying an object, assigning one to another of the same class and assigning it to itself leaves no storage with two owners, loses nothing and uses nothing after it was given back. '
 'Classes that cannot be copied in this way cannot be copied at all. Whatever a constructor acquires for a field of the object is given back by the destructor.',
 ['inputs', 'histories'], 'every class that has a destructor; copy constructor, assignment, self-assignment and every constructor',
 'Two owners of one allocation show only when both objects end, and a leak never shows in a test.',
 ['include/core/Resource.h', 'src/core/Resource.cpp', 'src/core/Matrix.cpp', 'src/core/Vector.cpp', 'src/core/NURBS.cpp', 'src/core/DiffBacktrace.cpp'],
 [('copies', 'copy constructors and assignment operators of all classes, written or implicit'), ('ends', 'destructors of all classes')],
 'ownership read off the abstract interpretation of each destructor, then checked along every path of constructors and copies',
 'Loops that release elements one by one are summarised by the field that leads to the elements; destructors of standard containers are opaque.')
prop('X01', 'Inflater decodes exactly the streams of RFC 1951; Deflater loses nothing',
 'Inflater returns, for every raw deflate stream or zlib stream given to it as a whole, exactly the bytes RFC 1951 defines, and throws an exception for every stream that is corrupt or incomplete (the trailing checksum of a zlib stream is not looked at); GetTotalIn, GetTotalOut, GetRemaining and Finished describe the stream that was read, and after Reset the object decodes another stream like a new one. '
 'Nothing outside of the input, the tables and its own storage is accessed whatever the stream contains, and nothing stays allocated after an error. '
 'Deflater passes everything it is given to zlib with enough room for data that cannot be compressed, returns exactly what zlib wrote, reports every error of zlib as an exception, gives back the state of zlib and counts the bytes of all blocks until reset.',
 ['inputs', 'faults'], 'Inflater, Deflater (zlib itself is taken as documented)',
 'The codes of real compressors cover a small part of the format; wrong tables, orders and limits show for rare streams only, and corrupt streams decide over memory safety.',
 ['src/core/Inflater.cpp', 'include/core/Inflater.h', 'src/core/Deflater.cpp'],
 [('streams', 'every path of Inflate for about 115 structures of streams with variable bits against a decoder written from RFC 1951'), ('zlib', 'calls of zlib by Deflater against the contract of zlib, for every length and every result')],
 'abstract interpretation over streams with symbolic bits; each path is compared with the definition for all its values',
 'Structures are bounded (a few blocks, a few codes each); contents of stored bytes are arbitrary.')
prop('D03', 'Preferences give back what was stored; translations are those of the file',
 'After setValue(key, text) the same Preferences object, and every object that loads the file it saved, returns exactly this text for the key (whatever blanks, line ends, backslashes and equals signs key and text contain), reports hasValue for exactly the keys that were set, and returns the given default for keys without a value; numbers and booleans come back as what String (toInt, toDouble) reads in their text, or as the default where that reports an error. '
 'load throws if the file exists and cannot be opened or read completely; save leaves the object unchanged and no file open. '
 'I18nBundle::appendMo adds exactly the entries of a translation file, changes nothing and reports an error for any file that is damaged (without accessing anything outside of it), and translate returns the entry or the text itself.',
 ['inputs', 'faults'], 'Preferences, I18nBundle (texts without U+0000; files by way of F02, the encoding by way of C02)',
 'Settings with unusual characters and damaged translation files are rare, and what they do shows only at the next start of the program.',
 ['src/core/Preferences.cpp', 'src/core/I18nBundle.cpp', 'src/core/Hashtable.cpp'],
 [('stories', 'setting, saving, loading and asking for arbitrary texts under unusual keys, with a file that may fail'), ('translation files', 'appendMo for about 75 files with every number at its boundaries, against a reader written from the format')],
 'abstract interpretation of whole stories over a file modelled by its content',
 'Texts of up to 2 (3) arbitrary characters and about 20 fixed ones.')
prop('Z01', 'ZipFile delivers the entries of an archive and rejects damaged ones',
 'ZipFile::open lists exactly the entries of the central directory, in their order, with their names, sizes and directory flag, and the comment of the archive; entry(name) returns the first entry of this name or nullptr; stream(entry) returns exactly the stored or inflated bytes of the entry. '
 'An archive whose directory, headers or sizes refer to something outside of the file or contradict each other, an unknown compression method, and a stream that cannot be opened or read completely lead to an exception, never to an access outside of the data or to data that are not those of the archive. '
 'After close the object can be opened again; everything it allocated is given back.',
 ['inputs', 'faults'], 'ZipFile, ZipEntry (archives without encryption, parts or ZIP64; the checksum is not compared; the signature of the end record does not occur in the comment)',
 'Archives come from elsewhere: every number in them may be wrong, and each wrong one decides over memory safety.',
 ['src/core/ZipFile.cpp', 'include/core/ZipFile.h', 'src/core/LinkedList.cpp', 'src/core/MemoryStream.cpp'],
 [('archives', 'open, the entries and the data of about 190 archives with every number at its boundaries, against a reader written from the format'), ('faults', 'a stream that cannot be opened or delivers less, compressed data that are damaged or of another length')],
 'abstract interpretation over archives with arbitrary data bytes and names, compared with a reader of the format',
 'Archives of up to three entries; Inflater is replaced by what X01 decides.')
prop('Z02', 'ZipOutputFile writes an archive of exactly what was put in',
 'After open, any sequence of entries (putNextEntry, any writes, closeEntry; or putNextEntry, writeAndClose of a file) and close, the file is an archive any reader understands: each entry once, with its name, size, checksum and data the same in local header and directory, offsets and counts right and nothing else in the file, whatever the file contained before. '
 'A file that cannot be opened or read completely leads to an exception. '
 'No other file is left behind or changed, two archives of one folder can be written at the same time, every file is closed and everything allocated is given back.',
 ['histories', 'inputs', 'faults'], 'ZipOutputFile (files take all bytes written to them; fewer than 65536 entries and 4 GB)',
 'No test of the repository writes an archive; offsets and sizes go wrong for particular sequences only, and the damage is found when the archive is read.',
 ['src/core/ZipOutputFile.cpp', 'include/core/ZipFile.h'],
 [('sequences', 'about 20 sequences of calls with arbitrary data over files modelled by their content; the result is taken apart by a reader of the format'), ('checksum', 'CRC-32 of every byte, every single bit in up to six bytes and further data')],
 'abstract interpretation of call sequences over files modelled by their content',
 'Up to three entries of a few bytes; in archives the checksum is a function of the data whose implementation is decided separately.')
prop('S01', 'Integers and floats are (de)serialised in exactly the named byte order',
 'For every value, every buffer and every offset, each fixed-width serialisation function writes exactly the bytes of the value in the byte order its name states, at the given offset and nothing else, '
 'and moves the offset by exactly the width. Each deserialisation function returns exactly the value encoded by those bytes (sign extended or zero extended as its result type demands) and moves the offset by the same width.',
 ['inputs'], 'all values of every width, all buffer contents, all offsets',
 'There are no tests of most widths and orders; a swapped byte, a lost sign extension or a wrong advance needs particular values, neighbouring bytes or chained calls to show.',
 ['src/core/Serializer.cpp', 'include/core/Serializer.h'],
 [('serialise functions', 'src/core/Serializer.cpp serializeLE*/serializeBE*'), ('deserialise functions', 'src/core/Serializer.cpp deserializeLE*/deserializeBE*')],
 'abstract interpretation with bit-provenance tracking of every written byte and returned bit',
 'Decides the whole statement for the 32 functions, assuming offset+width does not wrap around 2^32.', ['return value, buffer, offset of each function'])

prop('U01', 'Undo records exchange the recorded content back and forth exactly',
 'For every value type that can be recorded for undo, recording captures the current content of the variable; each later exchange stores the remembered content into the variable and remembers the content found there, so undo restores exactly '
 'the old content and redo exactly the content before the undo, however the variable was changed in between. After each exchange an editable owner is asked to regenerate itself. The record keeps its owner (and recorded object references) alive and gives up every reference exactly once when it is destroyed.',
 ['inputs', 'histories'], 'all contents of the recorded variable before recording, between recording and undo, and between undo and redo; all record types',
 'Tests record a few values of a few types; a type whose second exchange loses a component, a missing regenerate or an unbalanced reference does not show in them.',
 ['src/core/UndoManager.cpp', 'src/core/UndoChange.cpp', 'include/core/UndoData.h'],
 [('one record class per value type', 'src/core/UndoChange.cpp UndoChange*::swap'), ('recording overloads', 'src/core/UndoManager.cpp registerChange')],
 'abstract interpretation of record construction, three exchanges and destruction on symbolic memory',
 'String contents are opaque values. Raw byte buffers are excluded (that interface only throws). Assumes owner, record and variable do not overlap.')

prop('U02', 'Setting a member records first, reports truthfully and rejects invalid numbers',
 'Setting a member of an editable object to an equal value reports "not changed" and has no effect. Setting it to a different value first records the old content with the undo manager of the document (if there is one), then stores exactly the new value and reports success. '
 'A value that cannot be stored (a floating value that is not a number) leaves the member untouched, records nothing, is reported as an error and marks an open transaction as failed.',
 ['inputs', 'configurations'], 'all member types, all old and new values, with and without document and undo manager',
 'Tests set one or two members with a document; recording after the write, or a rejected value in a transaction, needs undo or a rollback with particular values.',
 ['src/core/EditableObject.cpp'], [('member setters', 'src/core/EditableObject.cpp setMember')],
 'abstract interpretation of every overload; order of recording and store, final content and status on every path',
 'String comparison and assignment are opaque value operations here.')

prop('U03', 'Undo and redo replay whole steps in order and transactions are atomic',
 'Undo exchanges every record of the latest closed step exactly once, newest first, and redo exactly once, oldest first; steps move between the undo and redo history and the reported counts match; recording a change discards the redo history, and nothing is recorded while recording is disabled or an exchange is running. '
 'Nested transactions take effect only at the outermost end: committing hands over every collected record in order, rolling back exchanges every one newest first. Clearing a history destroys each of its steps and records exactly once.',
 ['histories', 'inputs'], 'all histories of any length, any number of records per step, any nesting depth of transactions',
 'Tests replay histories of a few steps; an operation on a longer history, a nested or failed transaction, or a redo after clearing is not reached.',
 ['src/core/UndoManager.cpp'], [('histories of steps', 'src/core/UndoManager.cpp undo/redo/close/clear*'), ('transactions', 'src/core/UndoManager.cpp openTransaction/closeTransaction/commit/rollback')],
 'abstract interpretation with inductive list-walk summaries (start, one action per node, link followed, exit condition) and field-by-field comparison',
 'Assumes that a record\'s exchange does not touch the links between records (decided by U01) and that one manager is used by one thread.')

prop('U04', 'Linked list edits keep the chain consistent and undoable',
 'Adding, inserting before, removing, exchanging and clearing elements of a linked list leave a chain whose neighbours refer to each other, whose ends are the first and last element and whose reported size is the number of elements, at every position. '
 'When an undo manager is given, every link, end, size and value that the edit changes is recorded, for the object that holds it, while it still has its old content, and a removed element is kept alive by the record; without a manager the same edit is made and nothing is recorded. '
 'Edits that look up a value find the first element that holds it, or change nothing and report that.',
 ['inputs', 'histories'], 'all list lengths, all positions, with and without undo manager',
 'Tests edit short lists at few positions; a link recorded after its change or a wrong end pointer shows only after undo at a particular position.',
 ['src/core/LinkedList.cpp', 'include/core/LinkedList.h'], [('primitive edits', 'src/core/LinkedList.cpp add/addBefore/remove'), ('searching edits', 'src/core/LinkedList.cpp swapData/clear')],
 'shape analysis: primitive edits for every neighbourhood shape, searching edits by one arbitrary iteration',
 'Assumes the list is well formed before the edit and that distinct elements do not overlap.')

prop('V01', 'Vector operations compute their textbook formulas',
 'For all vectors of two and three dimensions with ordinary components, length, normalisation, dot and cross product, scaling, sums, differences, angles (signed in the plane, positive towards the left), left/right tests, rotations about an axis (right-handed) and the solution of a two-by-two linear system equal their textbook formulas; a vector is null, collinear, orthogonal or equal exactly within the common tolerance, '
 'and valid exactly when no component is NaN. This also holds when both operands are one object, and operands that are not assigned to stay unchanged.',
 ['inputs'], 'all component values, all sign cases of the compared quantities, distinct and identical operands',
 'Tests evaluate a few vectors, mostly axis parallel; a swapped component, a sign, or reading a component after it was overwritten shows only for particular values or aliased operands.',
 ['src/core/Vertex2.cpp', 'src/core/Vertex3.cpp', 'include/core/Vertex2.h', 'include/core/Vertex3.h'],
 [('plane vectors', 'src/core/Vertex2.cpp'), ('space vectors', 'src/core/Vertex3.cpp')],
 'abstract interpretation to value graphs, comparison with the formula as rational functions in every sign case',
 'Real algebra: rounding, overflow and the order of operations are not considered. A vector within tolerance of zero is left as it is by normalisation.')

prop('V02', 'Rectangles, points, sizes and extents keep their edge algebra',
 'For all rectangles, edges, corners and centres follow from origin and size; setting or shifting one edge moves exactly that edge, moving and aligning keep the size, and normalising keeps the edges as a set. For rectangles of non-negative size, union, intersection, intersects and contains equal the set operations on closed rectangles (an empty intersection is the default rectangle). '
 'Points and sizes combine component by component (equality within the common tolerance); a new extents object is invalid; adding points or extents gives exactly the smallest enclosing box, adding an invalid one changes nothing.',
 ['inputs'], 'all coordinates, all relative positions of the rectangles, distinct and identical operands',
 'Tests use a few rectangles; a wrong edge after a resize, touching or nested rectangles, negative sizes and self union are not sampled.',
 ['src/core/Rect.cpp', 'src/core/Point.cpp', 'src/core/Size.cpp', 'src/core/Extents.cpp', 'include/core/Rect.h'],
 [('rectangle edges and set operations', 'src/core/Rect.cpp include/core/Rect.h'), ('points and sizes', 'src/core/Point.cpp src/core/Size.cpp'), ('extents', 'src/core/Extents.cpp')],
 'abstract interpretation to value graphs, comparison with the edge algebra as rational functions in every sign case',
 'Real algebra; intersect() is decided for rectangles that intersect.')

prop('V03', 'Matrix and vector operations compute linear algebra',
 'For matrices and vectors of matching dimensions, sums, differences, products, scaling, transposition, insertion, diagonal, trace, norms, element access, copying and assignment equal their definitions for every element, also when operands are one object; operations on dimensions that do not match are refused with an exception. '
 'Determinant and inverse equal their definitions for square matrices up to four rows and report an error for others. The transformation and rotation matrices map every point as their name says (moving, scaling about a point, mirroring at a plane with unit normal, right-handed rotation about an axis).',
 ['inputs'], 'all element values; all dimensions up to 4 x 4 that the check enumerates; distinct and identical operands',
 'Tests invert and multiply a few matrices; one swapped index in a 4 x 4 cofactor or a non-square shape shows only for particular values.',
 ['src/core/Matrix.cpp', 'src/core/Vector.cpp', 'include/core/Matrix.h'],
 [('matrix operations', 'src/core/Matrix.cpp'), ('vector operations', 'src/core/Vector.cpp')],
 'abstract interpretation with concrete dimensions and symbolic elements, comparison of every element as a rational function',
 'Real algebra; generic loops are followed for the enumerated dimensions only. Inverse: for matrices whose determinant is not zero. Eigenvalues are not covered.')

prop('V04', 'Numeric helpers agree with one tolerance and their definitions',
 'The tolerant comparisons (equal, not equal, less, less or equal, greater, greater or equal) use one common positive tolerance so that for all numbers exactly one of equal, less and greater holds and each negated or combined comparison is consistent with them. Angle conversion, sign, rounding half away from zero (also to decimal places), interpolation, division and remainder rounding down, and the power-of-two helpers equal their definitions for all arguments. '
 'Swapping exchanges the contents of any two variables and leaves a variable swapped with itself unchanged.',
 ['inputs'], 'all argument values (powers of two up to 2^31, divisor not zero for division)',
 'Tests check a few numbers; values near the tolerance, negative operands and high powers of two are not sampled.',
 ['src/core/Math.cpp', 'include/core/Math.h'],
 [('tolerant comparison', 'src/core/Math.cpp isEqual..isGreaterEqual'), ('helpers', 'src/core/Math.cpp')],
 'abstract interpretation to value graphs: sign-case algebra, sign classes for division, known-bits domain for powers of two',
 'Real algebra for floating values. Random numbers and machine epsilon are not covered.')

prop('V05', 'Colours convert, blend and compare by their definitions',
 'Converting a colour between grey, RGB and CMYK gives the documented formulas for every component value (RGB from CMYK: 255 minus the clipped sum of component and key; grey: the nearest 0.2126 R + 0.7152 G + 0.0722 B; CMYK from RGB by the usual formulas, black being pure key), and the HSV model is exactly that of the colour, hue in degrees, also when FromHsv builds a colour from hue, saturation and value. '
 'blend of opaque colours is the weighted mean, of transparent ones the Porter-Duff composition, interpolate is linear, and no conversion divides by zero or leaves 0..255. '
 'Setters change one component, == compares mode, components and alpha, + and - work per component.',
 ['inputs'], 'all components, modes, weights and HSV values',
 'There are no tests of colours; black, full key, transparent operands and the ends of the hue circle are particular inputs.',
 ['src/core/Color.cpp', 'include/core/Color.h'],
 [('conversions', 'src/core/Color.cpp toRgb/toGreyScale/toCmyk/hsvModel/FromHsv'), ('blending', 'src/core/Color.cpp blend/interpolate'), ('comparison', 'src/core/Color.cpp operator==')],
 'abstract interpretation on arbitrary components, real algebra over bounded numbers with exclusion of wrap-around on every path',
 'Rounding of floating-point operations is not considered; fractions are cut off except for grey. Alpha after conversions to grey and CMYK is not specified; blend and interpolate take RGB colours.')
prop('T01', 'String queries give the answer defined on character sequences',
 'For all strings, characters and positions (also negative ones and positions behind the end), size, element access, counting, first and last position of a character or string, prefix, suffix and match at a position, equality (also ignoring case) and lexicographic order give exactly the answer defined on the sequences of characters. '
 'The hash code depends only on the characters (31-polynomial), remembered or not, so that equal strings have equal hash codes. A query never reads outside the characters and leaves every string unchanged, also when both operands are one object.',
 ['inputs'], 'all characters, all positions, strings of every length up to the enumerated bound (linear queries also at 8 and 17 characters)',
 'Tests query a few literals; a match that straddles the end, a repeated prefix, a negative position or a remembered hash is not sampled.',
 ['src/core/String.cpp', 'include/core/String.h'],
 [('searching and comparing', 'src/core/String.cpp indexOf..compareTo'), ('hash codes', 'src/core/String.cpp hashCode/constHashCode')],
 'abstract interpretation of strings with symbolic characters, comparison of every path with the definition, extent check of every access',
 'Lengths are enumerated (0-3, some queries 8 and 17; thorough up to 5 and 33), characters are arbitrary. The order with embedded numbers (compareFancyTo) is not covered.')

prop('T02', 'String edits and derived strings hold exactly the defined characters',
 'Appending, inserting, replacing a character, deleting, clearing, assigning and copying leave exactly the characters the operation defines, also at and over the capacity of the storage and when receiver and argument are one string; substring, reverse, trim, case conversion, replacement, concatenation and filling a place marker (lowest number first, at most two digits, padded to the field width) return exactly the defined characters and leave their operands unchanged. '
 'Positions outside the string are refused with an exception where the operation needs an existing position. No edit reads or writes outside the storage, leaks it, releases it twice or shares it between strings, and a hash code remembered before an edit is never returned after it.',
 ['inputs', 'histories'], 'all characters, positions and field widths; lengths up to the bound and at the capacity; storage obligations for any length; distinct and identical operands',
 'Tests edit short literals once; exact capacity, self insertion, a hash code asked before an edit or a second digit in a place marker is not sampled.',
 ['src/core/String.cpp', 'include/core/String.h'],
 [('edits', 'src/core/String.cpp append..deleteCharRangeAt, operator='), ('derived strings', 'src/core/String.cpp substring/replace/trim/arg')],
 'abstract interpretation of strings with symbolic characters and tracked storage, comparison of every path with the definition',
 'Contents: lengths 0-3 and 15-17 (thorough up to 6). Storage of append, concatenation, assignment and copy additionally for any length. Floating numbers in place markers are not covered.')

prop('T03', 'Numbers and text convert exactly in both directions',
 'The text of every signed or unsigned integer of 32 or 64 bits (smallest and largest included) is its shortest decimal representation, the reported number of digits is the length of that text, the hexadecimal text is the shortest two\'s complement representation in upper case, and the letter text counts A..Z, AA, AB and so on. '
 'Decimal text (optional minus sign in front) and hexadecimal text (either case) of every number that can be represented converts back to that number; decimal text with any other character is refused with an exception. Boolean text is true exactly for "true" in any case.',
 ['inputs'], 'all integers; all texts of the enumerated lengths',
 'Tests convert a few small numbers; the smallest integer, the high hexadecimal digits, multiples of 26 and a sign in the middle are not sampled.',
 ['src/core/String.cpp', 'src/core/Integer.cpp'],
 [('decimal', 'src/core/String.cpp valueOf/toInt'), ('hexadecimal and letters', 'src/core/Integer.cpp toHexString/fromHex/digits/toLatinAlphabetString')],
 'abstract interpretation per number of digits with interval domain, digit-wise comparison with the positional definition',
 'Texts up to 18 digits (decimal) and 16 digits (hexadecimal). Floating text is not covered.')

prop('T04', 'Character classes and case mappings agree with Unicode and each other',
 'For every 16-bit character, digit, white space (space, tab, line feed, carriage return, form feed, backspace), letter, upper and lower case are disjoint classes that match their definition (letters: ASCII and Latin-1), a letter is exactly an upper or lower case character, and the digit value is the value for digits and -1 otherwise. '
 'Case mappings map every ASCII letter and the umlauts, map nothing to anything but its Unicode counterpart, change nothing when applied again and undo each other where they change a character. Comparison of characters is comparison of their codes.',
 ['inputs'], 'all 65536 characters',
 'Tests look at a few letters; one wrong case label or range end affects a single character.',
 ['src/core/Character.cpp', 'include/core/CharArray.h'], [('classes', 'src/core/Character.cpp is*'), ('case mapping', 'src/core/Character.cpp toLowerCase/toUpperCase')],
 'abstract interpretation to a decision tree over an arbitrary character, tabulated over the whole domain',
 'Complete over the domain of 65536 codes.')

prop('C01', 'Single-byte code pages follow their published tables in both directions',
 'For Windows-1252, MacRoman and the raw (Latin-1) encoding, decoding gives for every byte at every position of a text exactly the character the published table defines for it, and encoding gives for every character of the table exactly its byte; the number of characters never changes, so every text over the characters of a table survives encoding and decoding.',
 ['inputs'], 'all bytes, all characters of the tables, every position in texts of up to three characters',
 'Tests convert a few umlauts; a single wrong table entry or case label affects one character only.',
 ['src/core/Windows1252Decoder.cpp', 'src/core/MacRomanDecoder.cpp', 'src/core/CharsetDecoder.cpp'],
 [('Windows-1252', 'src/core/Windows1252Decoder.cpp'), ('MacRoman', 'src/core/MacRomanDecoder.cpp'), ('raw', 'src/core/CharsetDecoder.cpp RawDecoder')],
 'abstract interpretation of construction, decoding and encoding to a map of one arbitrary byte or character, compared with the published table',
 'Bytes that a table leaves undefined and characters outside of it are not decided.')

prop('C02', 'UTF-8 and UTF-16 encode and decode exactly and stay inside the text',
 'Encoding a text of 16-bit characters gives exactly the UTF-8 bytes (shortest form) or the UTF-16 bytes in the byte order of the encoding; decoding well formed bytes (UTF-8 sequences of up to three bytes) gives exactly the characters, so every text without U+0000 survives encoding and decoding except for a leading byte order mark, which is dropped. '
 'The mark of the other transformation format is refused with an exception. Decoding any other bytes (incomplete or invalid sequences) never reads behind the terminator and never writes outside the result; strings constructed from text or byte arrays hold exactly the decoded characters.',
 ['inputs'], 'all characters and all bytes of texts up to the enumerated length',
 'Tests decode well formed literals; characters at the limits of the lengths, a sequence cut by the end and a zero byte inside a UTF-16 character are not sampled.',
 ['src/core/UTF8Decoder.cpp', 'src/core/UTF16Decoder.cpp', 'src/core/String.cpp'],
 [('UTF-8', 'src/core/UTF8Decoder.cpp'), ('UTF-16', 'src/core/UTF16Decoder.cpp'), ('strings from text', 'src/core/String.cpp constructors')],
 'abstract interpretation with symbolic bytes and characters, comparison of every path with the transformation format, extent check of every access',
 'Texts up to 3 characters (encode), 4 bytes UTF-8 and 6 bytes UTF-16 (thorough: one more). UTF-16 text ends with a zero character.')

prop('C03', 'Base64, checksums and URL encoding equal their definitions',
 'Base64 encoding gives exactly the text of RFC 4648 for all bytes, and decoding such text gives back exactly the bytes; decoding any other text ends without reading behind it or writing outside the result. '
 'CRC-16 (any initial value) and the CRC-32 of ZIP archives equal the bitwise definition of their polynomials for all data. URL encoding replaces exactly blank, percent and plus, and decoding replaces plus and every percent with two hexadecimal digits by the character they stand for, so ASCII text survives encoding and decoding.',
 ['inputs'], 'all bytes and characters of data and texts up to the enumerated length',
 'A wrong table entry, a lost bit of one byte position or an incomplete last group needs particular data to show; tests sample a few words.',
 ['src/core/Base64.cpp', 'src/core/CRC.cpp', 'src/core/ZipOutputFile.cpp', 'src/core/String.cpp'],
 [('Base64', 'src/core/Base64.cpp'), ('CRC-16', 'src/core/CRC.cpp'), ('CRC-32', 'src/core/ZipOutputFile.cpp CRC32'), ('URL encoding', 'src/core/String.cpp URLEncode/URLDecode')],
 'abstract interpretation; value graphs tabulated over the bytes they depend on, checksums as affine forms over GF(2)',
 'Base64 up to 7 bytes (thorough: 9) and 8 (12) characters, checksums of up to 5 (8) bytes, URLs of up to 3 (4) characters. Decoding percent codes of 128 and more and %00 is not covered.')

prop('H01', 'Hashtable is a finite map from keys to values in every history',
 'A look-up gives the value most recently put under an equal key and not removed since, or nothing; putting replaces and returns the old value or adds exactly one entry, removing takes out and returns exactly the entry of the key, and the size is the number of keys. '
 'Growth, colliding keys and the order of operations never lose, duplicate, mix up or leak an entry; clearing and destroying delete each entry once. The iterators over keys and values visit each entry exactly once, however often hasNext is asked.',
 ['inputs', 'histories'], 'all keys, hash values and table sizes; bucket chains and small tables of every shape',
 'Tests use a handful of keys that hardly collide; unlinking inside a chain, growth at the threshold and null values are not sampled.',
 ['src/core/Hashtable.cpp', 'include/core/Hashtable.h'],
 [('look-up', 'src/core/Hashtable.cpp get/containsKey/containsValue'), ('edits', 'src/core/Hashtable.cpp put/remove/clear'), ('growth', 'src/core/Hashtable.cpp rehash'), ('iteration', 'src/core/Hashtable.cpp HashtableIterator')],
 'shape analysis: abstract interpretation of each operation on an arbitrary table with a lazily introduced chain; growth, clearing and iteration on small tables of every shape',
 'Chains of up to three entries; growth, clearing and iteration on tables of up to three buckets. Keys are opaque values with equality and hash.')

prop('H02', 'Byte arrays hold exactly their bytes, terminated, in storage of their own',
 'Every construction, copy, assignment, resizing, replacement, fill, sort and element access of a ByteArray gives exactly the bytes its definition gives on sequences of bytes (growing adds zeros, ranges are cut at both arrays, negative positions replace nothing), and comparison is equality of size and bytes. '
 'After every operation the array is followed by a zero byte inside its storage, no two arrays share storage, and storage is released exactly once and in the way it was obtained; no operation reads or writes outside of it (positions given to get, set and [] are the caller\'s responsibility). All of this includes null arrays, arrays with spare room and an array used as its own argument.',
 ['inputs', 'histories'], 'all bytes and numbers; arrays of every small size and filling',
 'There are no tests of ByteArray; overlapping ranges, spare room with old content and null arrays need particular call sequences.',
 ['src/core/ByteArray.cpp', 'include/core/ByteArray.h'],
 [('construction', 'src/core/ByteArray.cpp ByteArray::init'), ('edits', 'src/core/ByteArray.cpp resize/replace/sort/fill'), ('copies', 'src/core/ByteArray.cpp operator=')],
 'abstract interpretation on symbolic bytes per shape, comparison with the definition on sequences, extent and ownership check of every access',
 'Sizes up to 3 (thorough: 5) bytes with up to 2 bytes of spare room.')

prop('H03', 'Lists, tokens, splitting, joining, arrays and stacks keep every element',
 'Every operation of StringList gives the sequence its definition gives (append, set, remove every equal element, copy, assign, sort into order, join with a divider, containment, indexed access with an exception outside of the list), also when the argument is an element of the list or the list itself; StringTokenizer and String::split give exactly the tokens of the text in order, however often hasNext is asked, and next throws after the last one. '
 'Array and FloatArray have elements of their own with value semantics, checked indices (Array) and a sort that permutes into order; Stack is last-in first-out with size, reversal and exceptions for missing second and third elements. '
 'No operation loses or shares storage, releases it twice or in the wrong way, or accesses anything outside of it.',
 ['inputs', 'histories'], 'all strings and characters; containers of every small size, all histories of stack operations up to a length',
 'Tests use short literal lists; arguments inside the list, growth while appending an own element, leading empty elements and equal neighbours are not sampled.',
 ['src/core/StringList.cpp', 'src/core/StringTokenizer.cpp', 'src/core/String.cpp', 'include/core/Array.h', 'include/core/Stack.h'],
 [('lists', 'src/core/StringList.cpp'), ('tokens', 'src/core/StringTokenizer.cpp'), ('splitting', 'src/core/String.cpp String::split'), ('arrays', 'include/core/Array.h'), ('stacks', 'include/core/Stack.h')],
 'abstract interpretation on symbolic elements per shape and history, comparison with the definition on sequences, extent and ownership check of every access',
 'Lists and arrays up to 3 elements (thorough: 4), texts up to 3 characters (thorough: 4), stack histories up to 4 (thorough: 5) operations and some longer ones. top, topRef and pop of an empty stack and indices of FloatArray are the caller\'s responsibility.')

prop('D01', 'XML written is well formed and reading gives back exactly what was written',
 'Whatever attribute values, character data, Base64 data and numbers are written between matching startElement and endElement calls, with or without indentation, the document is well formed and contains exactly these elements, attributes (in order) and texts; attributes written after the content has begun are ignored and indentation never adds to character data. '
 'SAXParser reports exactly the elements (qualified and local name), attributes and texts of a well formed document, whatever characters the values and texts contain and whichever quotes are used, between one start and one end of the document. SAXAttributes keeps the attributes in order, finds the first of a name and is copied by value.',
 ['inputs', 'histories'], 'all characters of values and texts up to a length, in a fixed set of document shapes',
 'Tests write and read a few documents; markup characters, quotes or brackets at particular places of values and white space at the ends of texts are not sampled.',
 ['src/core/XMLWriter.cpp', 'src/core/SAXParser.cpp', 'src/core/SAXAttributes.cpp'],
 [('writing', 'src/core/XMLWriter.cpp'), ('reading', 'src/core/SAXParser.cpp parse/parseTagString'), ('attributes', 'src/core/SAXAttributes.cpp')],
 'abstract interpretation of writer scripts and of the parser on symbolic characters, compared with a strict reader of the grammar',
 'Values and texts up to 2 (thorough: 3) characters. Comments, CDATA sections, document types, numeric references and names with unusual characters are outside of what the library supports. Numbers are written via String::valueOf (T03). White space between elements may be reported or not.')

prop('D02', 'Dates follow the Gregorian calendar before and after 1970',
 'Year, month, day of the month, day of the year, weekday, hours, minutes, seconds and milliseconds of every time, before and after 1970, are those of the proleptic Gregorian calendar (months from 0, weekdays from Sunday = 0), and a date made from components has exactly the time of them. '
 'Comparison orders dates by their time. The text of a date (years 0 to 9999) is its ISO form, and the date formatter replaces every run of a supported placeholder by the component with the width and zeros its pattern asks for, copying quoted and other text.',
 ['inputs'], 'clock and weekday: all times; year, month, day: all times of the enumerated years; texts: all component values for a set of patterns',
 'Tests look at ten dates; leap years of centuries, times before 1970 with fractions, last days of months and single digits at each place are not sampled.',
 ['src/core/Date.cpp', 'src/core/DateFormatter.cpp', 'src/core/Math.cpp'],
 [('components', 'src/core/Date.cpp'), ('formatted text', 'src/core/DateFormatter.cpp'), ('floor division', 'src/core/Math.cpp divFloor/modFloor')],
 'abstract interpretation; the resulting expressions are decided piecewise by intervals and, for all times, by their period',
 'Years between 1600 and 2400, a selection with all kinds of leap years (thorough: every year from 1890 to 2109). The library defines local time as UTC. Documented but unimplemented placeholders (weeks, AM/PM, time zone, other hours) are not claimed.')

prop('S02', 'Streams transfer exactly the bytes inside their buffers',
 'Reading from or writing to a memory stream moves min(length, rest) bytes, advances by that many and reports it; moving the position to a target before the first or behind the last byte changes nothing, opening restarts at the first byte, the size never changes and an owned buffer is released exactly once. '
 'Reading into an array never exceeds the array, and writing a text writes its UTF-8 bytes. '
 'A Resource passes every call on unchanged to its stream and keeps it alive exactly as long as a resource refers to it.',
 ['inputs', 'histories'], 'all buffer sizes, positions, lengths and bytes',
 'There are no tests of streams; lengths larger than the rest, positions at the ends, negative lengths and copies are particular inputs.',
 ['src/core/MemoryStream.cpp', 'src/core/Stream.cpp', 'src/core/Resource.cpp', 'include/core/MemoryStream.h'],
 [('memory streams', 'src/core/MemoryStream.cpp'), ('texts', 'src/core/Stream.cpp write'), ('resources', 'src/core/Resource.cpp')],
 'abstract interpretation for symbolic sizes and positions with linear arithmetic, and on symbolic bytes for small buffers; reference balance',
 'Contents are compared byte by byte for buffers up to 3 bytes; counts, positions and ranges for every size. A text that does not fit is cut.')

prop('F01', 'Paths of files are kept in normal form and split consistently',
 'The path of a File is the given path without repeated and trailing separators; a child is its parent path and its name joined by one separator (an empty child is an exception), and the name handed to the operating system is always the encoded path. '
 'name is what follows the last separator, parent what precedes it (the root for children of the root), extension what follows the last dot of the name (empty if there is none); a path is absolute exactly if it begins with a separator and hidden exactly if its name begins with a dot. '
 'Copies and assignments keep all of this and share no storage.',
 ['inputs'], 'all characters of paths up to a length',
 'Tests use a handful of ordinary paths; repeated separators, separators at the ends, dots in directories, names without dots and one-character names are not sampled.',
 ['src/core/File.cpp'],
 [('normal form', 'src/core/File.cpp File::normalize/resolve'), ('parts', 'src/core/File.cpp name/parent/extension')],
 'abstract interpretation on symbolic characters, comparison with the definition on sequences on every path',
 'Paths up to 4 (thorough: 5) characters; parent and child up to 3 characters each. Dot and dot-dot components are not resolved (the library does not).')

prop('F02', 'Files report what the operating system reports and lose no handle',
 'Existence, permissions, kind, size (bytes) and modification time (milliseconds) of a File, and the result of creating, making, removing and renaming, are the answers of the operating system for the encoded path of the file, whatever it answers; a new file never replaces an existing one, and a failed rename leaves the path unchanged. '
 'open uses the requested mode and returns the status that belongs to the error, reading, writing, seeking and position report what was done, a full read continues until the array or the file ends; every handle obtained (of files and directories) is released exactly once on every path, copies and assigned files start closed, and an error while closing is an exception. '
 'listFiles gives every entry of the directory once, and directories order before files.',
 ['inputs', 'faults', 'histories'], 'every answer of the operating system to every call',
 'Tests run on files that exist and calls that succeed; failing calls, changes between two calls, large sizes and handles left open need faults at particular points.',
 ['src/core/File.cpp', 'include/core/File.h'],
 [('queries', 'src/core/File.cpp exists ... size, lastModified'), ('handles', 'src/core/File.cpp open/close/~File/operator='), ('directories', 'src/core/File.cpp listFiles/renameTo/remove')],
 'abstract interpretation against a model of the operating system in which every call may answer everything, comparison of calls, results and handles on every path',
 'Directories of up to 2 (thorough: 3) entries, full reads of up to 2 (thorough: 3) bytes. Linux branch only; tags, trash and the locations of special directories are not covered. A directory that shrinks while it is listed gives null files at the end.')
prop('L01', 'Locks protect the data they guard and block nobody for ever',
 'Every function that takes a mutex releases it exactly once on every path, also when it throws or memory runs out, and takes no mutex that it already holds, directly or through what it calls; no two mutexes are taken in opposite orders. '
 'While a mutex is held no code of the application (virtual functions of arbitrary objects, destructors) runs. '
 'Reference counts, the list of an autorelease pool, the life flag of a thread, the log settings and the last error message are read and changed only under the mutex that guards them, and no reference to them is handed out.',
 ['schedules', 'faults', 'inputs'], 'every function of the library that uses a lock or touches guarded data, every path',
 'A missing lock or a deadlock shows up under particular interleavings, failing allocations or reentrant calls, which the tests do not produce.',
 ['src/core/Object.cpp', 'src/core/AutoreleasePool.cpp', 'src/core/System.cpp', 'src/core/Thread.cpp', 'src/core/Mutex.cpp'],
 [('reference counts', 'src/core/Object.cpp retain/release/setHighBit'), ('autorelease pool', 'src/core/AutoreleasePool.cpp add/drain'), ('log', 'src/core/System.cpp log/lastErrorMessage'), ('threads', 'src/core/Thread.cpp')],
 'lockset and lock-order analysis: abstract interpretation of every function that uses locks with the set of locks held on every path, guards inferred from writes, reachability of further locks in the call graph',
 'Constructors and destructors run before and after an object is shared. A function that only returns one scalar may read it without the lock here (L02 requires the lock for the life flag). Linux branch only.')
prop('L02', 'An interrupted thread always ends and is waited for exactly once',
 'A thread object is alive before its thread is created and stays so until it is interrupted: neither the new thread nor start() undoes an interrupt, whenever it comes; a thread that could not be created is reported, is not alive and is never joined. '
 'sleep() begins to wait only if, under the lock, the thread is still alive; interrupt() clears the flag under the lock, then wakes the sleeper, then joins a thread that was started exactly once and with no lock held. '
 'A sleep of m milliseconds has the valid deadline of the current time plus m milliseconds, and isAlive reports the flag as it is under the lock.',
 ['schedules', 'faults', 'inputs'], 'every interleaving of start, run, sleep, wakeUp and interrupt, and every duration',
 'The races of start, sleep and interrupt need interleavings of a few instructions; the tests start hardly any thread.',
 ['src/core/Thread.cpp', 'include/core/Thread.h'],
 [('start', 'src/core/Thread.cpp start/StartThread'), ('sleep', 'src/core/Thread.cpp sleep'), ('interrupt', 'src/core/Thread.cpp interrupt/isAlive')],
 'typestate analysis of the thread protocol: abstract interpretation of every method, order of lock, flag, signal, create and join on every path; periodic comparison of the deadline for every duration',
 'One thread controls a thread object. Deadlines for selected fractions of the second at which the clock stands and every duration up to 2^40 ms. Linux branch only.')
prop('M01', 'Objects are released as often as they are owned and deleted once',
 'A new object and a copy have the reference count 1, an assignment leaves the count of both objects; retain adds one, release subtracts one and deletes the object through its virtual destructor exactly when the count becomes 0, whatever the high bit, which only setHighBit changes. '
 'autorelease and add append the object to the pool; drain releases every object that the pool had exactly once and in order, keeps objects that are added meanwhile for the next time, frees every entry once, and leaves a pool that can be used on; destroying a pool releases all, also what is added meanwhile. '
 'Objects without a pool are neither counted nor crash.',
 ['inputs', 'histories'], 'every count, pools of every small size with every single entry adding others while it is released',
 'Counts near the boundary, the high bit and objects that use the pool while it is drained do not occur in the tests.',
 ['src/core/Object.cpp', 'src/core/AutoreleasePool.cpp'],
 [('counts', 'src/core/Object.cpp retain/release'), ('pool', 'src/core/AutoreleasePool.cpp add/drain/~AutoreleasePool')],
 'abstract interpretation of every operation from symbolic counts and pools, comparison of counts, deletions, entries and their storage with the definition on every path',
 'Pools of up to 3 (thorough: 6) objects.')
