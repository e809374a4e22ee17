"""Per-property notes for DESIGN.md: how it is decided, against what oracle, within what bounds."""
N = {
'P01': 'Encodes BibleBooksCodes accessors over the real tables. Symbolic 3-character codes, numbers 0..999, abbreviation strings of 1–6 characters over printable ASCII (quick: shorter), lists of up to 3 books. Oracle: the relation read from the same XML tables by an independent loop (code ↔ abbreviation, case folded), plus agreement between the accessors.',
'P02': 'BCVReferenceToInt and sortBCVReferences with symbolic book, chapter 0..200, verse 0..250, suffix, spans. Oracle: lexicographic comparison of (book number, chapter, verse, suffix); lists of three are permutations in order.',
'P03': 'Every book order system; symbolic codes, positions and lists of books (up to 3 of a stated set). Oracle: the list itself.',
'P04': 'KJV and other shipped systems; symbolic chapter and verse numbers in and around the range, omitted verses, suffixes, extended mode. Oracle: the table of counts and omitted verses.',
'P05': 'expandCVRange with symbolic chapters, verses, suffixes, blank verses, inside a chapter, over chapters and over books (EuropeanBible, ModernJewish). Oracle: enumerating the chapter table between the ends.',
'P06': 'Absolute verse numbers for several organisational systems, symbolic reference and symbolic number, both directions, alternating systems on one cache. Oracle: running totals of the verse counts.',
'P07': 'SimpleVerseKey and VerseRangeKey (VerseReferences.py): construction, text, parsing of texts, comparison, first/last verse, lists of 2–9 verses. Numbers 1..199, suffixes, verse index 0..999. Oracle: the grammar in the class documentation.',
'P08': 'FlexibleVersesKey: all combinations the class lists (single, list, span, range, chapter, chapter range), symbolic numbers. Oracle: the sequence of simple keys it stands for.',
'P09': 'The three reference parsers for the RSV organisational system. Well-formed references are generated from templates (book, chapters, verses, suffixes, commas, semicolons, ranges) with symbolic numbers and suffixes; expected tuples come from the template, validity from the verse counts. Second family: arbitrary strings over a 14-character alphabet after various beginnings (never an exception, success only with existing verses). All 66 books by name and abbreviation. Follow-up functions (expanded list, OSIS, containsReference, makeReferenceString) on the same symbolic references.',
'P12': 'Text helpers of BibleOrgSysGlobals (safe file names, XML/HTML escaping, applyStringAdjustments, string endings, line splitting …) on symbolic strings. Oracle: inverse functions and positionwise definitions.',
'P13': 'backupAnyExistingFile over every set of existing files and number of backups, with a stand-in file system in which any operation can fail. Oracle: contents before and after as multiset and order.',
'P14': 'SFMLines, SFMRecords, USFMFile and ESFMFile on virtual files of symbolic lines. Oracle: an independent line-by-line definition of marker and text.',
'P15': 'parseWordAttributes and parseFigureAttributes on symbolic attribute lists (names, quoting, order, spaces). Oracle: the list of pairs written.',
'P16': 'InternalBibleEntry, InternalBibleExtra, and their lists: construction, slicing, adding, comparing, containing, JSON-like round trips. Oracle: plain Python lists of the same values.',
'P17': 'Loading lines with up to three notes/figures/word formats anywhere, with symbolic texts. Oracle: the construction itself (pieces of text and extras with their positions).',
'P18': 'All sequences of line kinds up to the stated length through processLines/_addNestingMarkers. Oracle: a stack automaton for the nesting markers.',
'P19': 'The same sequences with symbolic texts: markers and texts complete and in order. Oracle: expansion of each raw line, plus the documented generated lines.',
'P20': 'makeBookCVIndex on processed books, lookups of symbolic references. Oracle: partition of the processed lines by the chapter/verse they follow, headings going forward.',
'P21': 'getContextVerseData(Range), getVerseDataList, getVerseText of a Bible of one to three small books, symbolic references, ranges. Oracle: the processed lines between the two verses.',
'P22': 'getVersification of books and Bibles from symbolic chapter/verse sequences (gaps, spans, letters, reordering). Oracle: direct scan of the markers written.',
'P23': 'findText over symbolic texts and search strings, all word modes and selections. Oracle: positionwise definition of occurrence.',
'P24': 'fileCompare, fileCompareUSFM, fileCompareXML on pairs of virtual files / symbolic element trees. Oracle: normal forms of the lines / trees.',
'P11': 'expandBibleNamesInputs on symbolic names of stated shapes (and leaders); the class accessors on the shipped systems, loaded from the XML files and by default. Oracle: own enumeration of the short forms of every name, compared as terms.',
'P25': 'USFMBibleBook.load run on a virtual file whose lines are chosen symbolically from a list of kinds (new markers, continuations, notes, character markers, glued markers, chunk markers, odd w fields) with symbolic texts; alignments of stated shapes. Oracle: own list of (marker, text) written down together with the file, compared as terms (white space apart in aligned files). The words of an aligned group are compared only when every group has its own line: for several groups on one line the code puts what is before them on the line into the words as well.',
'P26': 'BibleWriter.toUSFM2/toUSFM3 on books loaded by the real code from chosen kinds of lines with symbolic texts; the virtual files are read back as terms, and loaded with USFMBibleBook.load. Oracle: the lines themselves.',
'P27': 'toBOSBCV followed by BCVBible.preload/loadBook on virtual files. Oracle: the entries of the book written. The adjusted texts of texts with < are not compared (angle brackets are made into quotation marks according to the kind of file). Not claimed: books whose first chapter has no verse (the writer asserts).',
'P28': 'The four writers on books of chosen kinds of lines with symbolic texts. Oracle: list of verses with the pieces of their text kept while the lines are made; blank lines, white space at line ends and paragraph signs at the start of verse lines are not compared. Not claimed: r, d and sp headings in verse-per-line (they are written with the verse before), published numbers there.',
'P29': 'The loaders run on virtual files made of stated kinds of verses with symbolic texts in all arrangements of places. Oracle: the lines (c, v, p, d, s, r and text) that the file means, put together with the file; they are given to a book of the same kind, and the entries of both books have to be the same. Structural characters of each format are left out of the texts; repeated verse numbers, wrong numbers of fields and undecodable files are not claimed.',
'P30': 'The exporters run on books made of stated kinds of lines with symbolic texts; what they write is parsed by a parser in the engine (sx/xmlsym.py: elements, attributes, entities, self-closing and comments over symbolic text; replays parse the written file with xml.etree.ElementTree), which decides well-formedness, and a reader for each format collects books, chapters, verses, notes, headings and character fields. Oracle: the lists kept while the book was put together. Texts that the format leaves out (headings in Zefania …) are not claimed.',
'P31': 'A symbolic program of calls (each chosen freely) runs on the writer and beside it builds the tree that it means; the file is parsed by the parser of the engine and compared. Text lengths around the flush size (1000) and the held-back 30 characters are enumerated, the characters are symbolic.',
'P32': 'The file is built beside the lines it means (symbolic choice of verse shape, place and layout; symbolic texts), parsed by the parser of the engine, loaded by the real reader, and the processed entries are compared with those of a book made from the expected lines.',
'P33': 'Books are built from kinds of lines (symbolic choice; symbolic texts of 1–2 characters), loaded, and exported with totheWord/toMySword/toESword/toMyBible. The tables written through sqlite3 (an in-memory stand-in in symbolic runs: sx/sqlsym.py; the real one in replays) or the text file are read back with a small tag reader. Oracle: where each verse has to be (the counts of the KJV versification) with which text, headings, notes and cross-references, from the construction.',
 'P34': 'Modules (text file of a testament; SQLite tables through the stand-in sx/sqlsym.py, real sqlite3 in replays) are built from row shapes and places (symbolic choice; symbolic texts of 1–2 characters) and loaded. Oracle: a book made with addLine from the lines which the shape stands for, compared entry by entry (markers, texts, texts with character markers, notes) after leaving out verses without text and paragraphs followed by nothing.',
 'P35': 'Books are built line by line (symbolic choice of the kinds of line; words of symbolic letters where the case is about words, fixed different words elsewhere); the builder notes what it puts in (words, headings with places, notes, markers, verses with and without text). _discover / doCheck* / discover / check run on the processed book and their dictionaries are compared with the notes. Speech marks: a small stack automaton over the symbolic characters says whether they match.',
'P36': 'The marker strings are symbolic (any printable characters); the answers of both marker classes, built by the converters from the XML files, are compared with an independent reading of the XML file. Lines are built from markers (symbolic choice of kinds that are well formed where they stand) and symbolic texts, so that entries, positions, contexts and closing entries are known from the construction; fields to remove or replace likewise.',
'P37': 'Texts are symbolic strings over the Hebrew block (or the Greek letters); the functions run on them and the result is compared with a filter over the characters whose sets come from the Unicode names, not from the module. Transliteration is compared with the tables of the module for single (pointed) letters, with pinned Latin letters for the plain ones, and otherwise with itself on the pieces of a text.',
'P38': 'A real scratch folder with the files of the case (names from symbolic choices of pattern, books, language, extension; lines symbolic in memory in symbolic runs), listed through a stand-in for os.listdir in a symbolically chosen order. The id token is a symbolic string. Oracle: the names are built from the book code tables, so what fits is known; the book of an id line is decided by a separate reading of the rules.',
'P39': 'The OSIS document is built as a tree beside the USFM lines it means (symbolic choice of verse contents and moves; symbolic texts), parsed by the parser of the engine, loaded by the real reader with its reordering of lines, and every processed entry is compared (white space aside) with those of a book made from the expected lines.',
'P40': 'Files are written line by line beside the marker/text pairs that they mean; the raw lines of the real loader are compared with them. Links are expected from the construction of the verses (words, numbers and what is between are symbolic), so the regular expression of the module runs symbolically on them.',
'P41': 'Books are built line by line (symbolic choice of the kinds of line, symbolic texts; texts of notes from an alphabet of their own) beside the lines that the Markdown file should have; the file which toMarkdown writes is kept symbolically, read back and compared line by line; links to notes are skipped where they should stand, whatever their form.',
'P42': 'As P41. The page is taken apart into elements by a reader in the harness (which asserts nesting); the texts between block elements, the ids and the links are compared with what the builder noted. Styles (class names) are looked at only to tell chapter numbers and verse elements from formatting inside a text.',
}
