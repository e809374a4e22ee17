"""The properties (source of properties.jsonl and MANIFEST.json; run `python3 tools/gen.py`)."""
G = 'BibleOrgSys/BibleOrgSysGlobals.py'
R = 'BibleOrgSys/Reference/'
I = 'BibleOrgSys/Internals/'
P = []
def prop(id, harness, title, statement, qtext, why, files, mechanism, observe, over=('inputs',), note=None):
    P.append(dict(id=id, harness=harness, title=title, statement=statement, over=list(over), qtext=qtext, why=why, files=list(files),
                  mechanism=[{'name': a, 'where': b} for a, b in mechanism], observe=list(observe), note=note))

prop('P01', 'bookcodes', 'Book codes, numbers and abbreviations agree in every direction',
     'Every book code, reference number and USFM/OSIS/short/Unbound/Drupal abbreviation known to the book code tables leads back to the book (or one of the books) it belongs to, lookups ignore letter case, and anything not in the tables is refused with a key or value error and never mapped to some book. '
     'Chapter counts, single-chapter status, testament membership, Psalm titles, alternatives and listings all agree with the single-book answers, and a list of books is returned complete and in print order.',
     'every 3-character code, every number, every abbreviation string up to the stated length, every short list of books',
     'The tests look up a handful of codes in one direction; a collision or a case slip for any other string is not seen.',
     [R+'BibleBooksCodes.py'], [('table lookups', R+'BibleBooksCodes.py: getBBBFrom*/get*Abbreviation'), ('print order', R+'BibleBooksCodes.py: getSequenceList')],
     ['return values of the BibleBooksCodes accessors'])
prop('P02', 'bcvsort', 'References sort in Bible order',
     'Book-chapter-verse references convert to integers that are equal only for equal references and ordered exactly as book, then chapter, then verse, then suffix. Sorting a list of references returns the very same references in that order.',
     'all pairs of references with chapters to 200, verses to 250, hyphenated spans and suffixes; all lists of three',
     'The tests sort one sample list; field overflow for long chapters, high verses or suffixes needs particular pairs.',
     [R+'BibleBooksCodes.py'], [('sort key', R+'BibleBooksCodes.py: BCVReferenceToInt'), ('sorting', R+'BibleBooksCodes.py: sortBCVReferences')],
     ['BCVReferenceToInt, sortBCVReferences'])
prop('P03', 'bookorder', 'Book order systems: positions, neighbours and matching',
     'In each book order system the list, the positions 1..n, the book at a position, next and previous book and the before/after test all describe the same order, and unknown books are refused. An organisational system steps only through the books it includes, and a list of books is reported to match exactly those systems that contain all its books in that order.',
     'every code, every position, every pair of books and every short list of books, in the shipped systems',
     'The tests ask for a few books of one system.',
     [R+'BibleBookOrders.py', R+'BibleOrganisationalSystems.py'], [('order tables', R+'BibleBookOrders.py: BibleBookOrderSystem'), ('matching', R+'BibleBookOrders.py: checkBookOrderSystem'), ('stepping', R+'BibleOrganisationalSystems.py: getNextBookCode')],
     ['return values of the book order and organisational system accessors'])
prop('P04', 'versification', 'Versification systems: counts and valid references',
     'For every book of a versification system the number of chapters, the list of verse counts, the verse count of each chapter and the total agree, and a chapter that is not there has no verses. A reference is accepted exactly when its chapter exists and its verse (if any) is between one and the count and not omitted; the extended mode additionally admits verse zero and introduction verses. '
     'A scheme of verse counts is reported to match exactly the systems that agree with it.',
     'every book, every chapter and verse number in and around the valid range, with and without suffix and extended mode',
     'The tests sample a few references; off-by-one at chapter ends and omitted verses are not reached.',
     [R+'BibleVersificationSystems.py', R+'BibleOrganisationalSystems.py'], [('verse counts', R+'BibleVersificationSystems.py: getNumVerses/getNumVersesList/getTotalNumVerses'), ('validity', R+'BibleVersificationSystems.py: isValidBCVRef, isOmittedVerse')],
     ['return values of the versification accessors'])
prop('P05', 'verserange', 'Expanding a verse range lists exactly its verses in order',
     'Expanding a range between two valid references gives every valid verse from the first to the last in order, across chapters and books, each once, none omitted by the versification system, with the suffixes only on the two end verses. Ranges that run backwards, name verses that are not there, or cross books without a book order are refused.',
     'all start and end references within the stated books, with blank verses and suffixes',
     'The tests expand none or one range; the error shows only for particular combinations of chapter ends and books.',
     [R+'BibleVersificationSystems.py'], [('range expansion', R+'BibleVersificationSystems.py: expandCVRange')], ['expandCVRange'])
prop('P06', 'absverse', 'Absolute verse numbers and references are inverse to each other',
     "Counting the verses of an organisational system from one, converting a number to a reference and back (and the other way) returns what was started with, every number up to the total is exactly one verse in the order of the system's books, and anything beyond has no answer. The answers of one system do not depend on which other systems were used before.",
     'every number and every verse of the stated systems, after use of another system', 'The tests convert a few numbers in one system.',
     [R+'BibleOrganisationalSystems.py'], [('absolute numbering', R+'BibleOrganisationalSystems.py: getAbsoluteVerseNumber, convertAbsoluteVerseNumber')],
     ['getAbsoluteVerseNumber, convertAbsoluteVerseNumber'], over=('inputs', 'histories'))
prop('P07', 'versekeys', 'Verse keys keep their reference: single verses, lists and ranges',
     'A single-verse key, verse list or verse range written in the documented key format is accepted and gives back exactly its book, chapter, verse, suffix or index, the same key text and short text, and (for lists and ranges) exactly its verses in order with the suffixes only where given. '
     'Single-verse keys are equal exactly when all their parts are, with matching hashes. Anything else, including unknown books and ranges that run backwards, is refused with TypeError.',
     'all chapter and verse numbers 1..199, all suffixes and indexes, lists of up to nine verses, short ranges, all short strings for refusal',
     'The tests parse a few sample keys; wrong group numbers for long lists and odd ranges are not reached.',
     [R+'VerseReferences.py'], [('key parsing', R+'VerseReferences.py: parseReferenceString of SimpleVerseKey, SimpleVersesKey, VerseRangeKey'), ('key text', R+'VerseReferences.py: getVerseKeyText/getShortText')],
     ['accessors, iteration and text of the three key classes'])
prop('P08', 'flexkeys', 'Flexible verse keys list exactly the verses of the reference',
     'A flexible verse key accepts single verses, verse lists, ranges and all the listed combinations of ranges and single verses, and its included verses are exactly those of the reference in the order written, with their suffixes. Malformed references and combinations with a backward range are refused.',
     'all listed combinations with all verse numbers of the stated sizes and suffixes; all short strings for refusal',
     'The tests try a few combinations with one set of numbers each.',
     [R+'VerseReferences.py'], [('combinations', R+'VerseReferences.py: FlexibleVersesKey.parseReferenceString')], ['getIncludedVerses, iteration, getShortText, getVerseKeyText'])
prop('P12', 'textsafety', 'Text helpers: escaping, safe names, accents, edits and word trimming',
     'XML escaping leaves no markup characters and can be undone to the original text; making names and strings safe removes every unsafe character, never drops a character and leaves ordinary characters alone; removing accents gives the base letters with case kept and changes nothing else. '
     'A list of text adjustments has the effect of applying them all at once to the original text whatever order they are listed in, and trimming word punctuation and endings removes only leading/trailing punctuation or the listed endings.',
     'all Unicode strings (or all strings of a stated punctuation alphabet) up to the stated lengths; all non-overlapping adjustments',
     'The tests use a few example strings.',
     [G], [('escaping', G+': makeSafeXML, makeSafeFilename, makeSafeString'), ('accents', G+': removeAccents'), ('adjustments', G+': applyStringAdjustments'), ('trimming', G+': stripWordEndsPunctuation, removeStringEndings')],
     ['return values of these functions'])
prop('P15', 'attributes', 'Word and figure attributes keep their values',
     'The attributes of a word field (USFM3) and of a figure field (USFM2 by position or USFM3 by name) are read back exactly: the word or caption, then each attribute under its documented name with exactly its value, quoted or not, blank or not, whatever the order of the attributes and the spaces between them; a single unnamed value is the lemma. Nothing is added, lost or shifted to another name.',
     'all words, captions and attribute values of a stated alphabet up to the stated lengths, with the stated names, orders and spacings',
     'The tests parse none or a few sample fields; blank values, unquoted values and separators need particular strings.',
     [I+'InternalBibleInternals.py'], [('word attributes', I+'InternalBibleInternals.py: parseWordAttributes'), ('figure attributes', I+'InternalBibleInternals.py: parseFigureAttributes')],
     ['the returned dictionaries'])
prop('P16', 'containers', 'Bible entries, extras and their lists behave as lists of values',
     'After any history of appending, popping, extending, adding, slicing and copying, an entry list or extra list holds exactly the items a plain list would, in order, and no other list has changed. Entries and extras keep the values they were given and are equal exactly when all parts are; searching for a marker (within a number of lines) or for the extras at an index finds the first/all of them and nothing else.',
     'all operation histories of the stated length, all markers, indexes and field values of the stated sizes',
     'The tests build one or two lists; sharing between lists and limits of searches depend on histories and particular positions.',
     [I+'InternalBibleInternals.py'], [('entry lists', I+'InternalBibleInternals.py: InternalBibleEntryList'), ('extra lists', I+'InternalBibleInternals.py: InternalBibleExtraList'), ('entries', I+'InternalBibleInternals.py: InternalBibleEntry, InternalBibleExtra')],
     ['contents of the lists, accessors, equality'], over=('inputs', 'histories'))
BK = I+'InternalBibleBook.py'
prop('P17', 'bookextras', 'Notes, figures and word attributes leave the text with their positions',
     'When a book is loaded, every footnote, endnote, cross-reference, figure, Strongs/semantic field, word-attribute field and published verse number inside a line becomes one extra with its type, its text, its clean text and the index in the remaining text where it stood, in order; the remaining text is exactly the line without them, and the clean text additionally has no character-formatting markers but keeps every word.',
     'all lines of the stated kinds with up to three notes or formatted words of any kind anywhere, with symbolic texts',
     'The tests load a few files and look at totals; misplaced indexes, lost characters next to a note or swapped notes need particular combinations.',
     [BK], [('note extraction', BK+': _processLineFix'), ('clean text', BK+': _processLineFix')], ['InternalBibleEntry.getAdjustedText/getCleanText/getExtras'])
prop('P18', 'booknesting', 'The nesting markers of a loaded book are balanced',
     'In the processed lines of a book every opened block (introduction, chapters, chapter, verse, paragraph, list, major section) is closed exactly once and before another of its kind opens, nothing is closed that is not open, everything is closed at the end; chapter and verse ends name their chapter and verse, verses lie inside chapters, and verse and paragraph text lies inside its verse and paragraph.',
     'all sequences of lines of the stated kinds up to the stated length, in and around introductions, chapters, paragraphs, headings and lists',
     'The tests load a few well-formed books; missing or doubled ends need unusual line sequences.',
     [BK], [('nesting', BK+': _addNestingMarkers')], ['markers of InternalBibleBook._processedLines'], over=('inputs', 'histories'))
prop('P19', 'bookcontent', 'Loading a book keeps every marker and text in order',
     'The processed lines of a book contain the markers (in standard form) and texts of its raw lines, complete, unchanged and in order: verse number and verse text separated whatever the spacing, suffix or span; paragraph text after its paragraph marker; paragraph markers inside a line starting a new paragraph; angle brackets as the matching quotation marks. '
     'The only additions are the documented generated ones: the chapter number to print exactly once per chapter before its first verse or psalm heading (the published one where given), and chapter one for a book without chapter marker.',
     'all sequences of lines of the stated kinds up to the stated length with symbolic texts, all chapter and verse numbers to 150 with suffixes, spans and spacings',
     'The tests load a few well-formed files; lost or doubled lines need unusual sequences and spacings.',
     [BK], [('line processing', BK+': processLines, _processLine, doAppendEntry'), ('verse starts', BK+': addVerseStartMarkers')], ['InternalBibleBook._processedLines'], over=('inputs', 'histories'))
prop('P20', 'bookindex', 'The chapter/verse index of a book finds exactly its lines',
     'The index of a loaded book has one entry for every introduction line, chapter start and verse; each line of the book belongs to exactly one entry, in order, with the section headings and paragraph starts in front of a verse going with that verse; looking up a verse (also one inside a verse span, or with a letter suffix when not strict) or a chapter gives exactly its lines and the markers open at its first line. '
     'References that are not there are refused with KeyError, and looking up changes nothing.',
     'all sequences of lines of the stated kinds up to the stated length with symbolic texts, in introductions and several chapters; all verse spans of the stated sizes',
     'The tests load a few files and look at the number of entries; lines lost from, or indexed at, the wrong verse need unusual sequences.',
     [I+'InternalBibleIndexes.py'], [('indexing', I+'InternalBibleIndexes.py: InternalBibleBookCVIndex.makeBookCVIndex'), ('lookup', I+'InternalBibleIndexes.py: getVerseEntries, getVerseEntriesWithContext, getChapterEntries, getChapterEntriesWithContext')],
     ['InternalBibleBookCVIndex lookups'], over=('inputs', 'histories'))
prop('P21', 'bookretrieval', 'Retrieving a verse, chapter, book or range gives exactly its lines',
     'Asking a loaded Bible for a verse, chapter, book or range of verses (by tuple or verse key) gives exactly the lines of the verses referred to, each once and in order, from the first verse to the last across chapters and books, with the context of the first; the text of a verse is the text of its lines in order. '
     'References and ranges that are not there are refused with KeyError, books that are not there give nothing, and retrieving never changes the book.',
     'all sequences of lines of the stated kinds; all ranges in and over books with the stated numbers of chapters and verses and headings anywhere',
     'The tests retrieve a few fixed verses; ranges over chapter ends, headings at chapter ends and books in between need particular combinations.',
     [I+'InternalBible.py', BK], [('retrieval', I+'InternalBible.py: getContextVerseData, getContextVerseDataRange, getVerseDataList, getVerseText'), ('ranges', BK+': getContextVerseDataRange')],
     ['returned entry lists and texts'], over=('inputs', 'histories'))
prop('P22', 'loadversification', 'The versification of a loaded Bible is that of its markers',
     'The versification reported for a loaded book or Bible is what its chapter and verse markers say: every chapter with its last verse, every verse number skipped inside a chapter, every combined verse as written (without letters or brackets) and every verse out of sequence, in order, and nothing else; the numbers of chapters and verses agree with it, also for split, combined and omitted verses, and there are none for chapters and books that are not there.',
     'all sequences of verses of the stated forms and steps, all arrangements of the stated lines between chapters and verses',
     'The tests look at none or a few well-formed books; a wrong count needs spans at chapter ends, gaps or reordering.',
     [BK, I+'InternalBible.py'], [('versification', BK+': getVersification'), ('numbers', BK+': getNumChapters, getNumVerses'), ('Bible', I+'InternalBible.py: getVersification, getNumChapters, getNumVerses')],
     ['the four lists and the numbers'])
prop('P23', 'findtext', 'Searching a Bible finds every occurrence and nothing else',
     'Searching a loaded Bible for a text gives exactly its occurrences, also overlapping ones, in the lines of the selected books, chapters, markers, notes and introductions, in order: only at the asked word or line ends, with or without case and accents, plain or as a regular expression. Each result has the right book, chapter, verse, position, marker, word form as written and context, and the search history holds every search once.',
     'all texts and all texts to look for over a stated alphabet up to the stated lengths, all word modes, all selections of the stated books, chapters and markers',
     'The tests search for a few words; wrong word ends, contexts and positions need particular texts.',
     [I+'InternalBible.py'], [('search', I+'InternalBible.py: findText')], ['the returned options, summary and results'])
IO = 'BibleOrgSys/InputOutput/'
prop('P14', 'sfmfiles', 'Reading backslash-marked files loses and misplaces nothing',
     'Reading an SFM, USFM or ESFM file gives its marker lines, in order, each with its marker and its whole text: the marker ends at the first space (dropped), backslash (kept with the text) or, in USFM and ESFM, asterisk (kept with the marker, as is a self-closing ending); a line without marker continues the line before it (after a space). Only blank lines, comment lines, a byte order mark, lines of markers to be ignored, with their continuations, and text before the first marker are left out. '
     'Files read as records are split before every key marker, leaving out exactly the records and markers to be ignored, with markers renamed as asked; the analysis and the dictionary made from them agree with the records.',
     'all files of up to the stated numbers of lines, with any characters of a stated alphabet or of stated shapes with symbolic markers and texts; all record files of the stated markers',
     'The tests do not read such files directly; lost or misplaced text needs particular endings of markers, comments, continuations and ignored markers next to each other.',
     [IO+'SFMFile.py', IO+'USFMFile.py', IO+'ESFMFile.py'], [('lines', IO+'SFMFile.py: SFMLines.read; USFMFile.py: splitUSFMMarkerFromText, read; ESFMFile.py: read'), ('records', IO+'SFMFile.py: SFMRecords.read, analyze, copyToDict')], ['.lines and .records'])
prop('P13', 'backups', 'Backing up a file loses nothing but the oldest backup',
     'Backing up a file (before it is written again) keeps its content as the newest backup and moves every existing backup one back, in order, as many as asked for. Nothing but the content of the oldest backup asked for is ever lost, also when any one of the file operations fails; no other file is touched, and nothing at all changes when the file is not there.',
     'all combinations of existing files and backups, all numbers of backups to the stated bound and every point at which an operation fails',
     'The tests never back up a file that has backups; losses need particular gaps or a failure at a particular operation.',
     [G], [('backup', G+': backupAnyExistingFile')], ['the files of the folder afterwards'], over=('inputs', 'crash_points'))
prop('P24', 'filecompare', 'Comparing files says exactly whether they are the same',
     'Comparing two text files gives true exactly if they have the same lines, apart from blank lines and a byte order mark; for USFM files also apart from final spaces and the number of first level markers; for XML files exactly if they have the same elements, attributes (in any order), texts and tails, apart from surrounding white space if that is to be ignored. How much is reported and when the comparing stops makes no difference to the answer; without a file there is no answer.',
     'all pairs of files of the stated numbers of lines over a stated alphabet or marker list; all pairs of element trees of the stated shapes with symbolic names, attributes and texts',
     'The tests compare no files; a comparison that wrongly answers same hides exactly the export bugs it is there to find.',
     [G], [('comparing', G+': fileCompare, fileCompareUSFM, fileCompareXML')], ['the answer'])
BR = R+'BibleReferences.py'
prop('P09', 'refparse', 'Parsing a Bible reference gives exactly the verses written',
     'Parsing a well-formed Bible reference (book by name or abbreviation, chapters, verses, letter suffixes, lists after comma or semicolon, ranges inside a chapter, over chapters and over books, single-chapter books without chapter number) succeeds when all its verses exist and gives exactly the verses and ranges written, in order, each with its own book, chapter, verse and suffix; whatever the text, parsing never raises an exception and never succeeds with a verse that does not exist. '
     'The expanded list, the first reference, the OSIS form and the test whether a verse is contained agree with it, and a reference made into text is read back the same.',
     'all references of the stated forms with all numbers to the stated bounds and all suffixes; all books; all texts over a stated alphabet to the stated length after the stated beginnings',
     'The tests parse no or few references; wrong suffixes, lost chapters and wrong books need particular combinations of separators.',
     [BR], [('parsing', BR+': BibleReferenceList.parseReferenceString, BibleSingleReferences.parseReferenceString, BibleSingleReference.parseReferenceString'), ('use of the list', BR+': getReferenceList, getFirstReference, getOSISRefList, containsReference, makeReferenceString')],
     ['the returned flag and reference list'])
BN = R+'BibleBooksNames.py'
prop('P11', 'booknames', 'Book names and all their unambiguous short forms lead to the right book',
     'For a books names system and a list of books, every name, abbreviation and other form given for just one of the books leads to that book, in upper or lower case; so does every beginning of it that is not also a form of another book (with the spaces inside also left out, and with the leading number replaced by each of its alternatives), other than a number alone; nothing else leads to a book, and in particular no form that could mean two books unless it is given. '
     'The same holds for the divisions. Default names and abbreviations lead back to their book, no two books of a system have the same default name, the books of a division are those given for it, and the tables loaded by default say what the XML files say.',
     'all sets of up to three books and two divisions with the stated shapes of names over a stated alphabet; every name of every book and division of every shipped system',
     'The tests try some names; an ambiguous short form that silently means one of the books, or a wrong one, needs particular sets of names.',
     [BN, R+'Converters/BibleBooksNamesConverter.py'], [('short forms', BN+': expandBibleNamesInputs'), ('shipped systems', BN+': BibleBooksNamesSystem; Converters/BibleBooksNamesConverter.py: importDataToPython; DataFiles/BookNames')],
     ['the names which are found and their books'])
UBk='BibleOrgSys/Formats/USFMBibleBook.py'
prop('P25', 'usfmload', 'Loading a USFM file loses no text',
     'Loading a USFM file gives a line for every paragraph, chapter, verse and other new-line marker of the file, in the order of the file and with its text. Text that goes on in following lines, also when they begin with a character marker or a note, is appended to the line it belongs to; markers in the middle of a line are separated; lines which only hold a chunk marker are left out and the text after them goes to the line before. '
     'In aligned (unfoldingWord) translations the text without the alignment milestones is kept, and every group of aligned words is saved once with its chapter, verse and original words (groups of a verse with the same original words being put together).',
     'all files of up to five lines of the stated kinds with symbolic texts; all aligned files of the stated shapes with symbolic words',
     'The tests load a few whole Bibles and look at little of them; lost text needs particular sequences of lines: a note or character marker at the start of a line, a continuation after a marker without text.',
     [UBk, IO+'USFMFile.py'], [('loading', UBk+': USFMBibleBook.load; USFMFile.py: read'), ('alignments', UBk+': USFMBibleBook.load (handleUWEncoding)')], ['the raw lines and alignments of the book'])
BW = 'BibleOrgSys/BibleWriter.py'
prop('P26', 'usfmexport', 'Exporting to USFM writes the Bible as it was read',
     'Exporting a Bible to USFM (2 or 3) writes a file for every book, with a line for every line the book was loaded from, in order, each with its marker (first level markers with their number) and its whole text, with all notes, character markers and attributes in their places; a version line is added to every book for USFM 3 if there was none. Loading the file again gives the same entries. With verse bridges removed, every verse of a bridge gets a line of its own, the first with the text. The export changes nothing in the Bible.',
     'all books of the stated numbers of lines of any kind with symbolic texts; all sequences of verses and bridges of the stated lengths; Bibles of several books',
     'The tests run no exports on known texts; losses need particular sequences, such as a bridge at the end of a chapter or book, a second book, a note at the end of a line.',
     [BW, 'BibleOrgSys/Internals/InternalBibleInternals.py'], [('export', BW+': toUSFM2, toUSFM3'), ('putting notes back', 'BibleOrgSys/Internals/InternalBibleInternals.py: InternalBibleEntry.getFullText')], ['the files written'])
prop('P27', 'bcvfiles', 'A Bible written as one file per verse is loaded again the same',
     'Writing a Bible as BCV files (one file per verse and one for the introduction of each book, with lists of the books and verses) and loading them again gives the same books with the same entries (markers, original markers, texts, notes with their places) under the same chapters and verses, whatever the texts hold (also the characters = and <, which separate the fields of the files).',
     'all books of the stated numbers of lines of any kind with symbolic texts; front matter and several books',
     'The tests never load BCV files; losses need particular kinds of lines (headings between verses, published numbers) or separator characters in the text.',
     [BW, 'BibleOrgSys/Formats/BCVBible.py', 'BibleOrgSys/Internals/InternalBibleBook.py', 'BibleOrgSys/Internals/InternalBible.py'], [('writing', BW+': toBOSBCV; Internals/InternalBible.py: writeBOSBCVFiles; Internals/InternalBibleBook.py: writeBOSBCVFiles'), ('loading', 'BibleOrgSys/Formats/BCVBible.py: preload, loadMetadata, loadBook, BCVBibleBook.loadBookMetadata, load')], ['the loaded books'])
prop('P28', 'textexports', 'Plain text exports have every verse with its number and whole text',
     'Exporting a Bible as plain text (one file per book with chapters and numbered verses), verse per line (Forge), for SwordSearcher or for DrupalBible writes every verse once, in order, under its book and chapter, with its number (the published one, if there is one; for DrupalBible the first of a bridge) and its whole text: all parts of the verse, also those in following paragraphs and poetry lines, without notes and character markers. '
     'Headings, titles and introductions never become part of a verse, and texts of one verse never get into another.',
     'all books of the stated numbers of lines of any kind with symbolic texts; Bibles of several books and chapters',
     'The tests do not look at exported texts; lost, doubled or misplaced text needs particular sequences: text after a heading, a verse without text, a note in the middle, the end of a chapter or book.',
     [BW], [('exports', BW+': toText, toVPL, toSwordSearcher, toDrupalBible')], ['the files written'])
F = 'BibleOrgSys/Formats/'
prop('P29', 'lineimports', 'Loading line-based modules keeps every verse at its place',
     'Loading a Bible from a line-based module format (DrupalBible, Forge for SwordSearcher, CSV with its separators and quotation marks, Unbound Bible with 4, 6 or 9 columns, verse per line with its numbering styles, YET) gives a book for every book of the file, with every chapter and every verse under its number, in the order of the file and with its whole text; formatting codes of the format (italics, added words, words of Jesus, footnotes, cross-references, headings, psalm titles, paragraphs, special characters) become the matching markers at the same place. Blank lines, comments, byte order marks and the header never become text, and the names given in the header are kept.',
     'all files of up to four verses in every arrangement of following, skipped, next chapter and next book, with symbolic texts and every formatting code',
     'The tests load few or none of these formats (their sample files are not in the repository); losses need particular sequences: a paragraph within a verse, two notes in a verse, a heading at the start of a chapter.',
     [F+n+'.py' for n in ('DrupalBible', 'ForgeForSwordSearcherBible', 'CSVBible', 'UnboundBible', 'VPLBible', 'YETBible')], [('loading', 'load (and _loadFile, loadBooks) of each')], ['the loaded books'])
prop('P30', 'xmlexports', 'XML exports are well formed and have every verse with its number and text',
     'Every XML export (USX 3 and 2, USFX, OSIS, Zefania, Haggai, OpenSong) of every loaded Bible is a well-formed document, whatever characters the texts have (also &, quotation marks and apostrophes in verses, headings, names and notes) and in whatever order paragraphs, poetry, lists, headings, notes and (also nested) character fields occur. It has all books with their codes, chapters and verses in order, each with its number (the published number, bridges, letters) and its whole text; footnotes and cross-references keep their kind, place in the verse and whole text (USX, USFX, OSIS; footnotes and cross-references in Zefania); headings keep their text (USX, USFX, OSIS) and style, and character fields their style and extent (USX, USFX); verse and chapter milestones of USX 3 and OSIS start and end in pairs at the same place.',
     'all books of the stated shapes (up to 3 kinds of lines after a verse, two chapters, two books) with symbolic texts including characters special to XML',
     'The tests export few sample Bibles and never parse the result; badly formed output needs particular sequences (a list at the end of a book, a heading in a poetry line) or characters.',
     [BW, F+'USXXMLBible.py', F+'OpenSongXMLBible.py', 'BibleOrgSys/InputOutput/MLWriter.py'], [('exports', BW+': toUSXXML, toUSX2XML, toUSFXXML, toOSISXML, toZefaniaXML, toHaggaiXML, toOpenSongXML'), ('writer', 'BibleOrgSys/InputOutput/MLWriter.py: MLWriter')], ['the XML files written'])
prop('P31', 'mlwriter', 'What is written through the XML writer is read back as the same tree',
     'For every sequence of calls of MLWriter (opening and closing elements, texts, elements with text, empty elements, comments, new lines, taking back the last newline; attributes given as pair, list or dictionary; any layout mode, line ending and section; XML or HTML) with texts and attribute values escaped by escape_characters, the closed file is well formed and holds exactly these elements, attributes and texts, nested and ordered as written. autoClose closes exactly the open elements. Texts of any length are written whole (whatever the size of the buffer), and after removeFinalNewline with suppressed indent nothing comes between the two pieces.',
     'all sequences of up to 3 (thorough 4) calls in all modes, with symbolic texts and attribute values; texts around the buffer size',
     'The tests only run the demonstration of the module; buffer flushes, backtracking and special characters need particular sequences and lengths.',
     ['BibleOrgSys/InputOutput/MLWriter.py'], [('writer', 'BibleOrgSys/InputOutput/MLWriter.py: MLWriter')], ['the XML file written'])
prop('P32', 'xmlimports', 'Reading Bibles in XML formats keeps every verse at its place',
     'Loading an OpenSong, Zefania, Haggai, VerseView, USX or USFX file gives exactly the books, chapters and verses of the file in order, each verse (or verse bridge) with its number and its whole text once: plain text, styled text and character fields (with the marker that the style stands for), words with Strong numbers, line breaks, paragraphs and headings, table rows, and the notes of USX, USFX and Haggai files at their place. No text is lost, repeated, moved to another verse or replaced (for example by the word None), whether the file is laid out on many lines or few. White space, empty verses and elements that the readers do not know are not covered.',
     'every verse shape of each format in every place of small files, both layouts, with symbolic texts including special characters; pairs of shapes (thorough)',
     'The tests load a few files that happen to lie on disc and look at nothing; combinations of subelements, bridges, gaps and layout are not reached.',
     ['BibleOrgSys/Formats/OpenSongXMLBible.py', 'BibleOrgSys/Formats/ZefaniaXMLBible.py', 'BibleOrgSys/Formats/HaggaiXMLBible.py', 'BibleOrgSys/Formats/VerseViewXMLBible.py', 'BibleOrgSys/Formats/USXXMLBibleBook.py', 'BibleOrgSys/Formats/USFXXMLBible.py'],
     [('verses and their subelements', 'BibleOrgSys/Formats/*XMLBible.py: load, validateAndExtract*'), ('USX books', 'BibleOrgSys/Formats/USXXMLBibleBook.py: load'), ('USFX books', 'BibleOrgSys/Formats/USFXXMLBible.py: loadBook, loadParagraph, loadFootnote')], ['the entries of the loaded books'])
M4 = [F+n+'.py' for n in ('theWordBible', 'MySwordBible', 'ESwordBible', 'MyBibleBible')]
prop('P33', 'modexports', 'Modules written for Bible programs have every verse at its place',
     'Exporting a Bible as a module for theWord, MySword, e-Sword or MyBible puts every verse in the line or row of its book, chapter and verse (the numbering of the King James versification: JN3 1:15 and REV 12:18 with the verse before), once, with its whole text: all parts of the verse, also those in following paragraphs, poetry and list lines, and the text before and after notes and cross-references, without USFM markers left over. '
     'Verse bridges and doubled numbers are shown; missing verses stay empty and disturb no other verse; titles and section headings, footnotes (not e-Sword) and cross-references (theWord and MySword) are there once with their whole text, apart from the text of the verse; all tags are closed. Books are under their numbers, and the testaments and the number of lines are as the format wants them.',
     'all books of the stated shapes (two kinds of lines in any place, gaps and bridges anywhere, both testaments, the last verses of a book) with symbolic texts, for each of the four formats',
     'The tests do not look into the modules; losses need particular sequences: a verse before a gap, text after a cross-reference, a bridge over the verses that another versification joins.',
     M4, [('modules', 'Formats/theWordBible.py: createTheWordModule, theWordComposeVerseLine, theWordHandleIntroduction, theWordAdjustLine; MySwordBible.py: createMySwordModule; ESwordBible.py: createESwordBibleModule; MyBibleBible.py: createMyBibleModule')], ['the module files (text file or SQLite tables)'])
prop('P34', 'modimports', 'Loading modules of Bible programs keeps every verse at its place',
     'Loading a Bible module of theWord, MySword, e-Sword or MyBible gives a book for each book with text in the module, and in it every verse of the module at its chapter and verse with its whole text: rows that are missing or empty move no other verse, every chapter begins with its own chapter line, and the verses of one book, chapter or testament do not end up in another. '
     'Formatting codes do not remain in the texts and lose no words: character formatting and words of Jesus become character fields around the same text, footnotes become notes with their whole text, headings become heading lines (titles at the start of a book) before or inside the verse, and paragraph, poetry and line-break codes at the start, in the middle or at the end of a row start the paragraph at that place, the text staying in its verse. The module information after the verses of theWord files is read.',
     'rows with all listed codes (one coded row and a following one; thorough: pairs) with symbolic texts, at the start of books and chapters and elsewhere, with gaps, next chapters and books, loading single books and whole modules (theWord: whole files of a testament)',
     'The tests do not load modules with known contents; losses need particular codes at the start or end of a row, or a missing row before a coded one.',
     M4, [('module readers', 'Formats/theWordBible.py: theWordBible.load, handleRTFLine; MySwordBible.py: preload, load, loadBook; ESwordBible.py: preload, load, loadBook, handleESwordLine, handleRTFLine; MyBibleBible.py: preload, loadBooks, loadBook')], ['the loaded books (their processed entries, texts and notes)'])
prop('P35', 'bookchecks', 'Discovery and checks count and report what the book contains',
     'What discovery finds about a book agrees with its contents: the numbers of chapters, verses and verses with text, the progress, whether the book is finished, partly done or not started, the numbers of title lines, section headings, section references, footnotes, cross-references and figures, whether there are paragraphs, lists and introductions, the shares of notes that end with a period and of section references in parentheses, and how often each word (without the punctuation around it, exact or whatever its case) occurs in the main text and in the whole book; the totals of a Bible and of each testament are the sums over its books. '
     'The checks of a book report what is in it: the counts of characters, letters, punctuation, words, lines with each marker, character markers and leaders of notes are right for verse text, headings and notes; headings, titles, references, introduction lines and notes are listed with their places; and there is a heading error for each heading with a period or without text (each reference without parentheses), an introduction error for each heading of an introduction with a period and each of its entries without, a note error for each wrong anchor or unusual ending, a speech-mark error when and only when the speech marks do not match, and an error of internal markers when and only when character markers do not match. The results for all books together are the sums of the results of the books.',
     'books of one or two chapters: each sequence of two to three (thorough: four) steps of twenty kinds of line after a given start, words of symbolic letters, punctuation and numbers of several shapes, up to four speech marks in each of two verses, up to two (thorough: three) notes, headings or introduction lines; Bibles of two or three books',
     'The tests never look at the results of discovery or of the checks; miscounts need a particular line or last verse.',
     [I+'InternalBibleBook.py', I+'InternalBible.py', 'BibleOrgSys/BibleOrgSysGlobals.py'], [('discovery', 'Internals/InternalBibleBook.py: _discover; InternalBible.py: discover, __aggregateDiscoveryResults'), ('checks', 'Internals/InternalBibleBook.py: doCheckSFMs, doCheckCharacters, doCheckSpeechMarks, doCheckWords, doCheckHeadings, doCheckIntroduction, doCheckNotes; InternalBible.py: check, getCheckResults')], ['the dictionaries of discovery and check results'])
prop('P36', 'usfmmarkers', 'USFM markers are known for what they are and found where they are',
     'For USFM2 and for USFM3, a string is a valid marker exactly if the data file has it, or it is one of the numbered forms up to its highest number of a marker which has them; for anything else every question is answered False or with a KeyError. What is said about a marker or its numbered form (whether it starts a line, is internal, a note, deprecated, compulsory, numberable, nesting or printed, how it is closed, whether it has content, where it occurs, its name and description, its raw and its standard form) and each list of markers (newline markers of each kind, internal, note and character markers in all the forms asked for, places) are what the data file says, also as loaded by default. '
     'The marker list of a line has one entry for each marker in order, with its name, its place, its kind (opening, nested, closing, at the end of the line), the marker as written, the character markers open after it, the entry which closes it, and the text up to the next marker, so that initial text, markers and texts together are the line; initial text is included when asked for. Removing a character field removes all its occurrences with their markers, up to the end marker, the next marker or the end of the line as asked, and nothing else, and always ends; replacing character fields replaces just the opening and closing markers given, nested or not.',
     'any string up to four (thorough: five) printable characters as marker, all lists, all combinations of options; lines of up to four (thorough: seven) markers of all kinds with texts of symbolic characters; lines of two to four pieces of fields for removing and replacing',
     'The tests ask about some markers and try a few lines; wrong contexts, lost text or fields which never end need particular lines.',
     ['BibleOrgSys/Reference/USFM2Markers.py', 'BibleOrgSys/Reference/USFM3Markers.py', 'BibleOrgSys/Reference/Converters/USFM2MarkersConverter.py', 'BibleOrgSys/Reference/Converters/USFM3MarkersConverter.py'], [('marker tables', 'Reference/USFM2Markers.py, USFM3Markers.py: USFM2Markers, USFM3Markers; Reference/Converters: importDataToPython; DataFiles/USFM2Markers.xml, USFM3Markers.xml'), ('lines', 'Reference/USFM2Markers.py, USFM3Markers.py: getMarkerListFromText, removeUSFMCharacterField, replaceUSFMCharacterFields')], ['the answers and lists returned', 'the lines returned'])
prop('P37', 'originaltext', 'Marks come off Hebrew and Greek text and nothing else does',
     'Removing cantillation marks, vowel points or the other marks (with or without the dots of shin and sin) from Hebrew text takes off all marks of that kind wherever they stand and leaves every other character as and where it was; when asked, a meteg straight after a patah or segol goes with the vowel points and any other meteg with the cantillation marks. This holds for the own text of the object, which becomes its current text while the original text is kept, and for a given text, which leaves the object alone. One step after the other leaves the letters, spaces, maqaf and sof pasuq. The check for consonants reports an error exactly if there is anything but the Hebrew letters (all 27 forms), spaces and maqafs, or a final form inside a word. '
     'Transliteration goes by the table of the scheme, longer entries before shorter ones, final forms like their letters; a piece which starts with a letter, maqaf, sof pasuq or space does not depend on what is before it, and what is not Hebrew stays. Removing accents from Greek text replaces every lower-case letter with accents, breathings or iota subscript with its plain letter and leaves plain letters, spaces, line ends and punctuation.',
     'any text of up to two (thorough: three) Hebrew letters, points, accents, marks, spaces and line ends; up to three (four) for metegs; pieces of up to three (four) characters for transliteration; any Greek letter, texts of up to three (four) letters',
     'There are no tests with known results for these functions; a mark or letter left out of a table, or a mark at the start, at the end or twice, shows only with the particular text.',
     ['BibleOrgSys/OriginalLanguages/Hebrew.py', 'BibleOrgSys/OriginalLanguages/Greek.py'], [('Hebrew', 'OriginalLanguages/Hebrew.py: Hebrew (removeCantillationMarks, removeVowelPointing, removeOtherMarks, removeAllMetegOrSiluq, verifyConsonantsOnly, transliterate)'), ('Greek', 'OriginalLanguages/Greek.py: Greek.removeAccents, GREEK_ACCENT_DICT')], ['the strings returned', 'currentText and originalText of the objects'])
prop('P38', 'filenames', 'The files of a folder are found under their books',
     'For a folder of USFM files whose names follow one of the patterns (number, book code in capitals and language code in the usual orders; Bibledit and OEB names), in whatever order the file system lists them, the pattern and file extension are recognised, the confirmed files are exactly the files that fit under their books in the order of the books (with the strict check just those whose id line is for the same book), the unused files are all others, and the most that is found is no less; backup files, folders, and names and extensions to ignore are not looked at. '
     'Looking inside, a file is found under the book of the id line on its first or second line (code in any case or at the start of a longer word; numbers in Arabic or Roman figures also when apart, hyphens and underscores after the number, Judges, a byte order mark), nothing without one, and no file of a book of which there are several. Settings files are found by their extension. For USX files named by number and code, by code alone (capitals or not) or by two-digit number, hyphen and code the pattern, confirmed and unused files are right too, and the strict check keeps just the files with a usx element on the first two lines.',
     'id lines with any token of up to three (thorough: four) characters of a set of letters and digits and several continuations; one to three (thorough: four) files of the stated books and patterns in three listing orders, with or without other files, every combination of what is inside',
     'The tests list one or two folders and look at nothing; which file decides the pattern depends on the listing order.',
     ['BibleOrgSys/InputOutput/USFMFilenames.py', 'BibleOrgSys/InputOutput/USXFilenames.py'], [('USFM', 'InputOutput/USFMFilenames.py: USFMFilenames'), ('USX', 'InputOutput/USXFilenames.py: USXFilenames')], ['the lists of (book, file name) and of unused files', 'the template and extension'])
prop('P39', 'osisimport', 'Reading Bibles in OSIS keeps every verse at its place with its text',
     'Loading an OSIS XML Bible gives exactly its books (one after another, in a group of books, or in a folder with a file for each book named by its OSIS code), in each the chapters, verses, paragraphs, poetry lines and titles of the file in order, every verse with its number (bridges too) and its whole text: chapters as milestones or containers; verses as containers, or as milestones in paragraphs, in poetry lines or straight in chapter containers; text before the first verse of a paragraph; paragraph types; sections with their titles; poetry, line breaks and paragraph breaks in the middle of verses. '
     'Character fields (highlights, divine names, additions, names, foreign words, words with Strong numbers, book names) and notes (footnotes with and without caller and catch words, cross references, the other types of notes) keep their text and place, with the text after them, also in titles; a kind of highlight without a marker keeps its text; titles become section headings of their level, parallel references, psalm titles, or introductory titles before the first chapter. Empty fields add no text.',
     'books with up to four verses of 23 contents, at most two of them other than plain, and up to two moves between them (chapter, paragraph with or without text or in the middle of a verse, titles, section, poetry) for five ways to write chapters and verses, compact and indented; texts of one or two characters from letters, digits, punctuation and XML characters; up to five books',
     'The tests load one OSIS file and compare nothing; an element kind, layout or nesting that loses its text or the text after it shows only with a file which has it.',
     ['BibleOrgSys/Formats/OSISXMLBible.py', 'BibleOrgSys/Internals/InternalBibleBook.py'], [('loader', 'Formats/OSISXMLBible.py: OSISXMLBible.loadBooks, validateAndExtractBookDiv, validateParagraph, validateLG, validateTitle, validateCrossReferenceOrFootnote'), ('order', 'Internals/InternalBibleBook.py: reorderRawOsisLines')], ['books and processed lines of the loaded Bible'])
prop('P40', 'esfmload', 'Loading ESFM Bibles keeps markers, texts, file names and word links',
     'Loading an ESFM book gives one line for each paragraph, chapter or verse marker of the file, in order, each with its whole text: lines without a marker, and lines which start with a character or note marker, continue the line before; several markers in one line are taken apart; blank lines, comment lines (which start with a number sign), leading spaces and the byte order mark add nothing; tildes become no-break spaces; underlines, semantic tags and word numbers in the text stay as they are. '
     'The work data, file data and word table files which a book names in its first lines are known for the book and for the Bible. Making live links gives for each word with a number one link with the word, its number, and the book in the places of the template (and, in titles, the columns of that row of the word table), at its place in the text, with everything else of the text and all other entries unchanged, whatever the template, and returns the rows of the table.',
     'files of up to three (thorough: four) lines after the first of all kinds with texts of one or two characters, with and without final newline and byte order mark; one or two (thorough: three) books with every choice of named files; verses of twelve shapes with words of one or two letters, three link and four title templates, with and without a word table, with symbolic table rows',
     'The tests load one ESFM folder, which is not in the repository; a word that is missed or a lost line shows only with a particular template, neighbour or order of lines.',
     ['BibleOrgSys/Formats/ESFMBible.py', 'BibleOrgSys/Formats/ESFMBibleBook.py', 'BibleOrgSys/InputOutput/ESFMFile.py'], [('lines', 'InputOutput/ESFMFile.py: ESFMFile.read'), ('book', 'Formats/ESFMBibleBook.py: ESFMBibleBook.load, lookForAuxilliaryFilenames'), ('links', 'Formats/ESFMBible.py: livenESFMWordLinks, loadESFMWordFile, lookForAuxilliaryFilenames')], ['the raw lines of the book', 'the named files', 'the entries with links and the rows of the table'])
prop('P41', 'markdown', 'The Markdown export has every heading, verse and note in its place',
     "Exporting a Bible to Markdown writes a file for each book with, each on its own line and in the order of the book: the titles and section headings, with as many number signs as their level says (two more for section headings than for titles); a line for each chapter with its number; a line for each verse with its (published) number and its whole text, and after it, on the same line, the text of the further paragraphs of the verse and of other text lines, joined by spaces. Character formatting is shown by underlines and asterisks or not at all and loses no text. Each footnote, end note and cross-reference has one link at its place in the text, and its text is somewhere in the file; nothing else is written.",
     'books of up to two chapters and six lines with all choices of titles, headings, paragraphs, and nine kinds of verses; texts of up to three symbolic characters; up to two books of up to two chapters',
     'No test looks at the Markdown files; text that goes missing depends on the markers beside it.',
     ['BibleOrgSys/BibleWriter.py'], [('markdown', 'BibleWriter.py: toMarkdown')], ['the lines of the files'])
prop('P42', 'htmlexport', 'The web pages show all text in order, with working links',
     "Exporting a Bible to HTML5 writes a page for each book whose elements are properly nested and closed, which shows, in the order of the book, the titles, introduction, section headings, references, chapter numbers, the (published) number of each verse, and its whole text with the text of the further paragraphs and list entries, and nothing else. Each verse has one place named after its chapter and number; no two places have the same name. Each footnote, end note and cross-reference has one link at its place in the text which leads to the note with its text; the pages link to the other books, and to the book before and the next book.",
     'books of up to two chapters and six lines with all choices of titles, introductions, headings, paragraphs, lists, and nine kinds of verses; texts of up to three symbolic characters without < > and &; thirteen character markers; two books of up to two chapters',
     'No test looks at the pages; an element that is left open, or a link that leads nowhere, depends on the order of the markers.',
     ['BibleOrgSys/BibleWriter.py'], [('pages', 'BibleWriter.py: toHTML5'), ('text', 'BibleWriter.py: __formatHTMLVerseText'), ('writer', 'InputOutput/MLWriter.py')], ['the texts, places and links of the pages'])
NOT_APPLICABLE = []
