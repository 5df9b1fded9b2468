#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=['metaknowledge/' + f for f in files],
                               mechanism=[dict(name=n, where='metaknowledge/' + w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

p('C01', 'Collections are sets of records under every history of operations',
  "After any sequence of |, &, -, ^, their in-place forms, +, add, remove, discard, pop, clear, copy, split, chunk and comparisons, a RecordCollection or GrantCollection contains exactly the records a mathematical set of those records (identified by their ids) would contain. Operators never change an operand they are not documented to change (copies and results are decoupled from their sources), and operands that are not collections (lists, sets, strings) or elements that are not allowed are refused without effect. The ordering operators <, <=, >, >= compare sizes, equality compares contents, and the result of a set operator is marked bad and carries every error of both operands whenever an operand is bad.",
  ['histories', 'inputs'], 'every operation sequence over every small population of records, good and bad, with overlapping contents',
  'the tests run each operator once on one 33-record file and look at sizes; aliasing and error bookkeeping only show in longer histories',
  ['mkCollection.py', 'recordCollection.py', 'grantCollection.py'],
  [('set algebra and in-place operators', 'mkCollection.py:Collection'), ('RecordCollection.__add__', 'recordCollection.py')],
  ['iteration, len, in, ==, <, <=, >, >=, name, bad, errors of the collections'])

p('C02', 'ID lookup, filtering of bad entries and partitions are exact',
  "containsID, getID, discardID and removeID act on exactly the element with the given id (removeID raises KeyError when it is absent, the others do nothing), badEntries and dropBadEntries split a collection into exactly its bad and its good elements, dropNonJournals keeps exactly the records whose publication type matches (or does not, inverted), and tags() is exactly the union of the elements' tags. chunk(n) and split(n) return collections of at most n elements, all but the last full, that are disjoint and together equal the source, which chunk leaves unchanged and split leaves empty.",
  ['inputs', 'histories'], 'every collection, id and chunk size n >= 1',
  'tests use one file and one or two ids; boundary sizes and absent ids are not combined',
  ['mkCollection.py', 'recordCollection.py'],
  [('containsID/discardID/removeID/getID/badEntries/dropBadEntries/tags', 'mkCollection.py:CollectionWithIDs'),
   ('chunk/split', 'mkCollection.py:Collection'), ('dropNonJournals', 'recordCollection.py')],
  ['return values and contents afterwards'])

p('C03', 'Records are consistent read-only mappings whatever was read before',
  "For every record the value of a field is the same under its short tag and its long name, through [], get, items, values, subDict and in any order and number of accesses; iteration, len and keys give exactly the tags of the source, all of which can be read without an exception, `in` agrees with [], and a missing field raises KeyError or gives the default. Reading never changes what the record writes to file, its raw values, its id, its equality or its hash. copy() and pickling give an equal record with the same values that is independent of the original, and a record made from a dictionary does not change when the dictionary does.",
  ['inputs', 'histories'], 'every well-formed record of the four sources and every sequence of accesses to it',
  'the lookup is memoised under two names, so the result depends on the access history; tests read fields in one order',
  ['mkRecord.py', 'WOS/recordWOS.py', 'medline/recordMedline.py', 'scopus/recordScopus.py', 'proquest/recordProQuest.py'],
  [('memoised alias lookup', 'mkRecord.py:ExtendedRecord.__getitem__'), ('alias lookup', 'mkRecord.py:ExtendedRecord.__contains__')],
  ['values returned, bytes written by writeRecord'])

p('C04', 'WOS files: parsing is exact and writing is lossless',
  "Reading a well-formed WOS file yields exactly one record per entry with every tag mapped to exactly its lines, in order, and no errors, and each record names its file and the line it starts at (sourceFile, sourceLine). Writing any good collection of WOS records (however it was obtained: file, directory, iterable or set operation) and reading the result gives an equal collection whose records have identical tags and raw values in the same order, and a record writes itself byte for byte as it was read. A file whose records are good is never reported bad.",
  ['inputs'], 'every well-formed WOS record set: any tags, line counts, unicode values, blank lines between records',
  'tests round-trip one sample file',
  ['WOS/recordWOS.py', 'WOS/wosHandlers.py', 'recordCollection.py'],
  [('recordParser', 'WOS/recordWOS.py'), ('wosParser', 'WOS/wosHandlers.py'), ('writeRecord', 'WOS/recordWOS.py'), ('writeFile', 'recordCollection.py')],
  ['RecordCollection(file), writeFile'])

p('C05', 'WOS fields decode to the values the file states',
  "Every field of a WOS record decodes to what its lines say, under its tag and its long name: people fields to the list of their lines, keyword, category, funding, e-mail and id-number fields to the list of their semicolon-separated items, numeric fields (year, citation, reference and page counts) to integers, volume and first and last page to stripped strings, the publication date to its month number (seasons to the first month), text fields to one string (titles and texts joined by spaces, abstracts by newlines, journal and publisher in upper case), C1 to the list of addresses without the bracketed author names and CR to one Citation per line in order. Decoding is total: it never raises for any non-empty field content that a WOS export can hold.",
  ['inputs'], 'every combination of tags and every text their lines can hold',
  'tests look at the fields of a few sample records', ['WOS/tagProcessing/tagFunctions.py', 'WOS/tagProcessing/helpFuncs.py', 'WOS/tagProcessing/funcDicts.py'],
  [('tag functions', 'WOS/tagProcessing/tagFunctions.py')], ['R[tag], R[name]'])

p('C06', 'Medline files: parsing is exact and writing is lossless',
  "Reading a well-formed MEDLINE/PubMed file yields exactly one record per PMID entry, with each tag's values exactly those in the file (continuation lines joined), the documented fields (authors, address, title, abstract, year, volume, pages, DOI, keywords, grants, citation) decoding to what the lines state, and no errors, and each record names its file and the line it starts at (sourceFile, sourceLine). Writing a good collection of Medline records and reading it back gives an equal collection with the same values for every tag.",
  ['inputs'], 'every well-formed MEDLINE record set: any tags, repeats, order of tags, continuation lines, unicode values',
  'tests round-trip one sample file', ['medline/recordMedline.py', 'medline/medlineHandlers.py', 'medline/tagProcessing/tagFunctions.py', 'medline/tagProcessing/specialFunctions.py'],
  [('medlineRecordParser', 'medline/recordMedline.py'), ('medlineParser', 'medline/medlineHandlers.py')], ['RecordCollection(file), writeFile'])

p('C07', 'Scopus files: parsing is exact and writing is lossless',
  "Reading a well-formed Scopus CSV export yields exactly one record per row with each column's value exactly the cell's text (commas, semicolons and doubled quotes inside cells included, doubled quotes kept as they stand), and the documented fields (authors, year, title, journal, volume, pages, DOI, keywords, references as Citations, grants) decode to what the cell states. Writing a good collection of Scopus records and reading it back gives an equal collection with the same values for every field.",
  ['inputs'], 'every well-formed Scopus table: any subset of columns filled, any cell text',
  'tests read one sample file', ['scopus/recordScopus.py', 'scopus/scopusHandlers.py', 'scopus/tagProcessing/tagFunctions.py', 'scopus/tagProcessing/specialFunctions.py'],
  [('scopusRecordParser', 'scopus/recordScopus.py'), ('scopusParser', 'scopus/scopusHandlers.py')], ['RecordCollection(file), writeFile'])

p('C08', 'ProQuest files: parsing recovers every record and field',
  "Reading a well-formed ProQuest export yields exactly one record per document, each with exactly the fields and values of its document and the documented decoding of authors, title, year, subjects, keywords and abstract, whatever the number of documents and whichever optional fields they have; each record names its file and the line it starts at (sourceFile, sourceLine). No record is flagged bad and no error is recorded for such a file.",
  ['inputs'], 'every well-formed ProQuest text export',
  'tests read one sample file', ['proquest/recordProQuest.py', 'proquest/proQuestHandlers.py', 'proquest/tagProcessing/tagFunctions.py', 'proquest/tagProcessing/specialFunctions.py'],
  [('proQuestRecordParser', 'proquest/recordProQuest.py'), ('proQuestParser', 'proquest/proQuestHandlers.py')], ['RecordCollection(file)'])

p('C09', 'Damaged input is reported, never silently lost, and never crashes',
  "For any damage to a recognised input file (truncation at any byte, deleted, duplicated, inserted or garbled lines, wrong encoding), building a collection from it does not raise and terminates, and every record that lies wholly before the damage (before the block that cannot be decoded, for undecodable bytes) is read exactly as from the undamaged file; only a file whose header is damaged or that cannot be decoded may be refused with BadInputFile. A record cut off or damaged in a way the format makes detectable (missing end marker, missing identifier, duplicate tag, malformed tag, misplaced continuation line, undecodable bytes, missing end-of-file marker) is either flagged bad with an error or recorded in the collection's errors with the collection marked bad.",
  ['fault_sequences', 'inputs', 'crash_points'], 'every truncation point and line-level damage of every well-formed file of each source format',
  'tests hold three damaged files', ['WOS/recordWOS.py', 'WOS/wosHandlers.py', 'medline/medlineHandlers.py', 'scopus/scopusHandlers.py', 'proquest/proQuestHandlers.py', 'recordCollection.py'],
  [('error capture', 'WOS/wosHandlers.py:wosParser'), ('error capture', 'medline/medlineHandlers.py'), ('error capture', 'scopus/scopusHandlers.py'), ('error capture', 'proquest/proQuestHandlers.py')],
  ['RecordCollection(file).bad, .errors, record.bad, record.error'])

p('C10', 'File types are recognised uniquely and directories are unions',
  "Every well-formed file is recognised as its own source type and as no other, whatever its name, and a file of no known type is refused with BadInputFile. A collection built from a directory is exactly the union of the collections built from the recognised files in it whose names end with the requested extension, independent of listing order; unrecognised files are skipped without an extension and refused with one; errors are keyed by file, and missing paths or mismatched extensions raise the documented exception.",
  ['inputs', 'configurations'], 'every directory of files of mixed types, names and extensions',
  'tests read one fixed directory', ['fileHandlers.py', 'recordCollection.py', 'grantCollection.py', 'WOS/wosHandlers.py', 'medline/medlineHandlers.py', 'scopus/scopusHandlers.py', 'proquest/proQuestHandlers.py'],
  [('recordHandlers/grantProcessors', 'fileHandlers.py')], ['RecordCollection(dir, extension=...), GrantCollection(dir)'])

p('C11', 'The directory cache is never observable, even stale or corrupt',
  "After any history of reads with and without cached=True interleaved with adding, removing, rewriting and touching files, changing the extension, and damaging, truncating or replacing the cache file, a collection built with cached=True equals the one built without it at that moment (same records, values, name, bad flag and errors), where a file changed in place is noticed by its modification time. A write of the cache interrupted at any point never makes a later read fail or return other records.",
  ['histories', 'crash_points', 'fault_sequences'], 'every history of directory changes and cache reads, every truncation or corruption of the cache file (files changed in place get a new modification time)',
  'tests create one cache and delete it', ['mkCollection.py', 'recordCollection.py', 'grantCollection.py'],
  [('_loadFromCache/_createCache', 'mkCollection.py')], ['RecordCollection(dir, cached=True) against RecordCollection(dir)'])

p('C12', 'Citations parse totally and compare consistently',
  "Every string makes a Citation without an exception, str() gives back the original, and a string of the documented WOS form (author, year, journal, optional V, P and DOI, the rest being misc) yields exactly those fields with bad False, while an incomplete one yields exactly the fields present with bad True and an error. Equality is an equivalence that agrees with the hash and is decided by author, year and journal only (case- and period-insensitively as normalised), ID() identifies the class, allButDOI and Extra are composed of the remaining fields, and Scopus-style references decode to their author, year, title, journal, volume, issue and pages.",
  ['inputs'], 'every string, and every combination of present and absent components',
  'the tests parse four strings', ['citation.py'], [('regex parsing', 'citation.py:Citation.__init__'), ('hash/eq/ID', 'citation.py:Citation')], ['Citation attributes, ==, hash, str, ID, Extra, allButDOI, isAnonymous, isJournal, FullJournalName'])

p('C13', 'A record cites itself the way other records cite it',
  "The citation a record makes for itself has the record's first author, year, journal abbreviation (or title when it has none), volume, page and DOI (for Scopus records first author, year, journal, volume, page and title), equals the Citation parsed from the WOS-style reference string of those parts, and with all authors requested there is one citation per short author name (at least one) differing only in author. Two records give equal citations exactly when their first author, year and journal agree after normalisation.",
  ['inputs'], 'every record of every source with any subset of those fields present',
  'tests compare one record', ['mkRecord.py', 'scopus/recordScopus.py', 'citation.py'], [('createCitation', 'mkRecord.py'), ('createCitation', 'scopus/recordScopus.py')], ["createCitation(), record['selfCitation']"])

p('C14', 'BibTeX output contains every record and every value intact',
  "writeBib writes exactly one entry per good record (skipping bad ones), and parsing the output recovers, for every tag of the record, exactly the text of its value with list values joined by ' and ' (by new lines in WOS mode), whatever the length of the value and the maximum string length: no characters are lost except the double quotes documented to be dropped from split strings. No piece of a field's string exceeds the requested length, entries of distinct records can be told apart when full ids are requested, and reduced output holds only the documented common fields.",
  ['inputs', 'configurations'], 'every collection, value length and every maximum length >= 1',
  'tests compare the size of one output file', ['mkRecord.py', 'recordCollection.py'], [('_bibFormatter/bibString', 'mkRecord.py'), ('writeBib', 'recordCollection.py')], ['text of bibString and of the written file'])

p('C15', 'CSV output is a faithful table of the collection',
  "The file written by writeCSV, read back with any conforming CSV reader using the same delimiter and quote, has one row per record and one column per requested tag (all tags when none are requested, the first tags first and in order) whose cell is the record's value, list values joined by the list delimiter and missing values empty, plus exact author and gender counts when requested. Splitting by a tag distributes each record to exactly the files of its values, and no call changes the lists passed to it or the result of later calls.",
  ['inputs', 'configurations', 'histories'], 'every collection, tag selection, delimiter and option combination, and repeated calls',
  'tests write one file and compare its size', ['recordCollection.py'], [('writeCSV', 'recordCollection.py')], ['written files'])

p('C16', 'NLP and burst tables have exact, aligned columns',
  "forNLP gives one row per record with its own id, year, title, keywords and abstract plus each extra column; forBurst gives one (year, word) row per word of the tag's value of every dated record. The text processing does exactly what the options say: drop-list words removed everywhere they stand alone, lower-casing, removal of digits and of non-word characters, whitespace collapsing, the stemmer applied to each word and the copyright statement moved to its own column with nothing else lost; findProbableCopyright lists each of these statements once; the written CSV equals the returned table and the arguments are not modified.",
  ['inputs', 'configurations'], 'every collection, text and option combination',
  'tests compare two output sizes', ['recordCollection.py'], [('forNLP/forBurst/findCopyright', 'recordCollection.py')], ['returned dicts and written files'])

p('C17', 'Tables for data frames are rectangular and aligned',
  "makeDict returns columns of equal length in which position i of every column comes from the same record, with None for missing values, exactly one position per record, the requested tags and the author and gender counts. Record and collection getCitations return one row per distinct citation that has the requested field (with one of the requested values, when given) with its string, year, journal, author and exact counts and fractions. Neither changes its arguments.",
  ['inputs', 'configurations'], 'every collection, tag list, option combination and citation filter',
  'tests check lengths on one file', ['recordCollection.py', 'mkRecord.py'], [('makeDict/getCitations', 'recordCollection.py'), ('getCitations/_pandasPrep', 'mkRecord.py')], ['returned dicts'])

p('C18', 'Ranked, time and co-occurrence counts are exact',
  "rankedSeries counts each value of a tag exactly as often as it occurs, sorted by count in the requested direction with rank 1 for the highest count and equal counts sharing a rank, timeSeries gives every (value, year) pair with the number of times it occurs, sorted by year, and cooccurrenceCounts counts every pair of key value and counted value once per record pair of occurrences. limitTo restricts exactly to the listed values, the list, pandas and file outputs agree, and records lacking a needed field contribute nothing.",
  ['inputs', 'configurations'], 'every collection, tag, limit and option combination',
  'tests look at the first entries for one file', ['mkCollection.py'], [('rankedSeries/timeSeries/cooccurrenceCounts', 'mkCollection.py')], ['returned lists and dicts, written files'])

p('C19', 'One-mode and multi-level networks count co-occurrences exactly',
  "networkOneMode and networkMultiLevel produce exactly one node per distinct (stemmed) value of the modes, an edge between two values exactly when some record has both (or one twice), edge weight equal to the number of co-occurring pairs and node count equal to the number of occurrences over all records, independent of record order. With an edge attribute there is one parallel edge per attribute value with its own weight, and with a node attribute each node lists exactly the attribute values of the records it occurs in.",
  ['inputs', 'configurations'], 'every collection, choice of modes, stemmer and options',
  'tests compare summary statistics for one file', ['mkCollection.py'], [('networkOneMode/networkMultiLevel', 'mkCollection.py')], ['returned graphs'])

p('C20', 'Two-mode and multi-mode networks count co-occurrences exactly',
  "networkTwoMode and networkMultiMode produce exactly one node per distinct (stemmed) value of the requested tags, with edges only between values of different tags that occur in the same record, weighted by the number of co-occurring pairs, and node counts equal to the number of occurrences. Each node's type is the tag that produced it, directed two-mode edges run from the first tag to the second, and an edge attribute splits edges into one parallel edge per attribute value with its own weight.",
  ['inputs', 'configurations'], 'every collection, choice of tags, stemmers and options',
  'tests compare summary statistics for one file', ['mkCollection.py'], [('networkTwoMode/networkMultiMode', 'mkCollection.py')], ['returned graphs'])

p('C21', 'Co-authorship networks count authors and collaborations exactly',
  "networkCoAuthor has exactly one node per distinct author of the considered records, its count is the number of times the author appears, and two authors are joined exactly when they share a record, with weight the number of such author pairs. dropNonJournals removes exactly the non-journal records, detailed info holds the values of a record of that author, and the citation profile of an author counts each cited work once per record and citation.",
  ['inputs', 'configurations'], 'every collection and option combination',
  'tests compare summary statistics for one file', ['recordCollection.py'], [('networkCoAuthor', 'recordCollection.py')], ['returned graphs'])

p('C22', 'Co-citation networks are exact',
  "networkCoCitation joins two cited works (identified by the node type: full, original, author, journal or year) exactly when at least one record cites both, with weight equal to the number of citing pairs and node count equal to the number of citations. The filters (anonymous, non-journal, key words, core only) remove exactly the citations they name before anything is counted, isolated citations remain as nodes, and core membership and info attributes describe the cited record. With expandedCore every cited record of the collection has a node for each of its later authors, all joined with each other and with whatever the cited one is joined with.",
  ['inputs', 'configurations'], 'every collection, node type, filter and option combination',
  'tests compare summary statistics for one file', ['recordCollection.py'], [('networkCoCitation/addToNetwork/filterCites', 'recordCollection.py')], ['returned graphs'])

p('C23', 'Citation networks are exact and correctly directed',
  "networkCitation has an edge from every considered record's own citation to each work it cites, reversed when asked, undirected when asked, with weight the number of such citations, for every node type and with or without weights, and node counts equal to the number of times the work occurs as a citing record or a citation. The filters remove exactly the records and citations they name, and for full and original nodes a weighted edge carries the absolute difference of the two publication years when both are known.",
  ['inputs', 'configurations'], 'every collection, node type, direction, filter and option combination',
  'tests compare summary statistics for one file', ['recordCollection.py'], [('networkCitation/addToNetwork', 'recordCollection.py')], ['returned graphs'])

p('C24', 'Bibliographic coupling counts shared references exactly',
  "networkBibCoupling joins two records exactly when they cite at least one common work, with weight equal to the number of distinct works both cite, for every collection; the relation is symmetric, has no self loops, and every citing record is a node.",
  ['inputs'], 'every collection whose records have distinct own citations',
  'tests compare summary statistics for one file', ['recordCollection.py'], [('networkBibCoupling', 'recordCollection.py')], ['returned graphs'])

p('C25', 'Citation queries return exactly the matching records',
  "localCitesOf, given a record, record id, citation string or Citation, returns exactly the records citing that work, and citeFilter returns exactly the records with at least one citation matching the key string in the chosen field (its complement when reversed), for every field including those that are missing in some citations. localCiteStats counts every citation, or its journal, year or author, exactly as often as it occurs in the collection.",
  ['inputs', 'configurations'], 'every collection, query and field, with incomplete and malformed citations among them',
  'tests query one file with six filters', ['recordCollection.py'], [('localCitesOf/citeFilter/localCiteStats', 'recordCollection.py')], ['returned collections and counts'])

p('C26', 'Year windows and RPYS spectra are exact',
  "yearSplit(a, b) returns exactly the records dated from a to b inclusive, so consecutive windows partition the dated records. rpys returns one row per year of the requested range (dropped years excepted) with the number of references to that year made by records at least two years later (or of unknown year), the deviation of that count from the median of the five years centred on it (count minus median), and ranks that order the years by deviation with empty years ranked 0 unless asked otherwise, for any bounds and also when nothing is cited.",
  ['inputs', 'configurations'], 'every collection, year bounds and dropped years',
  'tests check two calls on one file', ['recordCollection.py'], [('yearSplit/rpys', 'recordCollection.py')], ['returned collections and tables'])

p('C27', 'Diffusion graphs and counts are exact',
  "diffusionCount maps every source record (or value of the source type) to exactly the number of citations the target collection makes to it, split by the extra value when asked, with source counts taken from the source collection itself and the table form equal to the dictionary form. diffusionGraph with multi-valued tags as node types has an edge from a source value to a target value exactly when a target record with that value cites a source record with the other, with weights and parallel edges counting those citations and the source and target flags saying in which collection each node occurs. diffusionAddCountsFromSource writes exactly those counts on the nodes of the graph and leaves the counts it is given unchanged.",
  ['inputs', 'configurations'], 'every pair of source and target collections (also the same or overlapping) and every choice of types and options',
  'tests compare one collection with itself', ['diffusion.py'], [('diffusionCount/diffusionGraph/diffusionAddCountsFromSource', 'diffusion.py')], ['returned dicts and graphs'])

p('C28', 'Graphs written to disk are read back unchanged',
  "For every graph whose node ids and attributes are strings or numbers, writeGraph followed by readGraph gives a graph with the same nodes, edges, direction and attribute values (edge and node attributes, blanks for missing ones), for every name, suffix, option and character in the data. Existing files are kept unless overwriting is allowed, and the edge list, node list and tnet files hold exactly one line per edge or node (a tnet line has the ids given to the two nodes, the source mode first, with the weight and time of the edge when asked for).",
  ['inputs', 'configurations'], 'every attributed graph, directed or not, and every option combination',
  'tests write one graph', ['graphHelpers.py'], [('writeGraph/readGraph/writeEdgeList/writeNodeAttributeFile/writeTnetFile', 'graphHelpers.py')], ['files and re-read graphs'])

p('C29', 'Graph trimming, merging and statistics follow their bounds exactly',
  "dropEdges, dropNodesByDegree and dropNodesByCount remove exactly the edges or nodes whose weight, degree (each edge at the node once, by its weight or 1) or count lies outside the inclusive bounds (and self loops exactly when asked), keep everything else with all its attributes, and do nothing with default options. mergeGraphs, for graphs without parallel edges, leaves the union of both graphs with counts and weights summed on shared nodes and edges, all other attributes of the target kept, and the added graph untouched; graphStats, getNodeDegrees and getWeight report the true values in the order and form requested.",
  ['inputs', 'configurations'], 'every weighted or unweighted graph and every bound',
  'tests use one graph and one bound each', ['graphHelpers.py'], [('dropEdges/dropNodesByDegree/dropNodesByCount/mergeGraphs/graphStats', 'graphHelpers.py')], ['graphs and strings'])

p('C30', 'Grant files and strings parse to exactly their grants',
  "Every well-formed NSERC, CIHR, NSF or generic grant file is recognised as its own type and yields exactly one grant per award (NSERC rows and files of one award merged with all their values), with each column or element's text as its value and no error recorded. Investigators and institutions are exactly those named in the file's fields, Medline and Scopus grant strings split into their number, code, agency and country ; Medline grants are the same exactly when their number, code and country (without a number: their code, agency and country) are, Scopus grants when all their parts are, and a grant is bad exactly when its identifying field is missing.",
  ['inputs'], 'every well-formed grant file of each type and every grant string',
  'tests read fixed sample files', ['grants/baseGrant.py', 'grants/nsercGrant.py', 'grants/cihrGrant.py', 'grants/nsfGrant.py', 'grants/medlineGrant.py', 'grants/scopusGrant.py', 'grantCollection.py'],
  [('parsers and detectors', 'grants/*.py'), ('NSERC merging', 'grantCollection.py')], ['GrantCollection(file or dir)'])

p('C31', 'Co-investigator networks count investigators and awards exactly',
  "networkCoInvestigator and networkCoInvestigatorInstitution have exactly one node per distinct investigator (or institution) named in the collection's grants, counted once per naming, and join two exactly when they are named in the same grant, with weight the number of such pairs of namings. Investigators are the names in the fields asked for, split at the separator, and those in the investigator fields of NSERC and NSF grants.",
  ['inputs', 'configurations'], 'every grant collection and tag, separator and option choice',
  'tests compare summary statistics for one collection', ['grantCollection.py', 'grants/baseGrant.py'], [('networkCoInvestigator', 'grantCollection.py')], ['returned graphs'])

p('C32', 'Gender statistics count every author exactly once per record',
  "For every record the gender table classifies each distinct full author name by the given-name lookup, case-insensitively on the first given name, with names that have no given name counted as Unknown; the counts add up to the number of distinct author names, and collection statistics are the sums over the records. Fractions are the counts divided by their total, including collections and records without authors.",
  ['inputs'], 'every collection and author name form',
  'the existing test needs the network', ['genders/nameGender.py', 'mkRecord.py', 'recordCollection.py'], [('nameStringGender/recordGenders', 'genders/nameGender.py'), ('authGenders', 'mkRecord.py'), ('genderStats', 'recordCollection.py')], ['authGenders, genderStats'])

p('C33', 'The journal abbreviation database keeps exactly what was added',
  "After any history of adding, re-adding and excluding abbreviations in the manual database (by name, with a dictionary, or through a citation), creating it empty, downloading again, failed downloads and wrong arguments, a lookup returns: for the manual database exactly the names last given to each abbreviation (split at pipes, a blank name for an excluded one, in any process); for the downloaded database all names of each abbreviation in the pages of every download, without repeats and in order; for both, the downloaded names superseded by the manual ones. A missing downloaded database is downloaded once under the name asked for and never again; a missing manual one is an error when only it is asked for. Whether a citation is to a journal, its full journal name, whether it is excluded, and the filtering of journals agree with that table after a restart, and at once when the addition was made through a citation.",
  ['histories'], 'every history of additions and exclusions over databases in a scratch directory',
  'tests touch only the downloaded database', ['journalAbbreviations/backend.py', 'citation.py'], [('addToDB/excludeFromDB/getj9dict', 'journalAbbreviations/backend.py')], ['getj9dict, isJournal, FullJournalName'])

p('C34', 'Analyses are pure and independent of order, verbosity and repetition',
  "No analysis or export (networks, tables, series, statistics, filters and sub-collections, diffusions, file output, reading of fields; of record and grant collections) changes the collection, its records, the other collection or graph given to it, or the lists given as arguments: any sequence of them, repeated, with the results changed or emptied in between, gives the same results as on fresh collections, and record contents, collection contents, name and errors are as before. Results do not depend on the order or manner in which the records entered the collection (list, additions and removals, unions, chunks, copies, pickles), up to the order of rows and to which record describes a value that several share, on earlier analyses, or on whether progress output is enabled, for empty collections too.",
  ['histories', 'configurations'], 'every sequence of analyses over every collection, with progress bars on and off',
  'each test runs one analysis on a fresh collection', ['mkCollection.py', 'recordCollection.py', 'mkRecord.py', 'progressBar.py'], [('memoised fields', 'mkRecord.py'), ('progress reporting', 'progressBar.py')], ['results of all public analyses'])

p('C35', 'The command line tool applies exactly the chosen filters',
  "For every set of files or directories, option and sequence of menu answers (wrong ones included, which are asked again) the command line tool reads exactly the records of the files named (with the suffix asked for), produces the chosen network for the chosen tags, applies exactly the chosen thresholds in the documented direction (removing edges or nodes below a value keeps those at or above it, removing above keeps those at or below it, dropping isolates and self loops removes exactly those), repeatedly until told to continue, and writes exactly that collection, network or set of citations to the files named, overwriting an existing file only when told to. Going over the non-journal citations asks once per unknown journal and records exactly the answers in the database named.",
  ['inputs', 'configurations'], 'every sequence of valid menu answers over every collection',
  'tests script four dialogues', ['bin/metaknowledgeCLI.py'], [('getThresholds, getOutputName, outputNetwork', 'bin/metaknowledgeCLI.py')], ['graphs and files produced'])

p('C36', 'Glimpses show the top values that fit, in order, in an aligned table',
  "For every collection, selection of tags and terminal size, glimpse lists for each requested tag (full authors, journals and citations when none are) its most frequent values, each once, with its rank, in the order of the ranks and as many as the terminal has room for (rows for none of them say NA in the compact form), each cut only where it does not fit. Every line of the compact table is exactly as wide as the terminal and its columns are aligned, no line of the other form is wider than it (80 by 24 standing in for a terminal that is unknown or too small), and the header states the type, the size and the name of the collection and the time.",
  ['inputs', 'configurations'], 'every collection, set of tags and terminal size',
  'the test looks for a few fixed strings in one glimpse', ['RCglimpse.py', 'mkCollection.py'], [('_glimpse, makeHeader, makeTable, prepEntry', 'RCglimpse.py')], ['string returned'])

p('C37', 'Markdown files become valid notebooks with exactly their code and text',
  "For every set of markdown files, whatever characters they hold, the markdown to notebook tool writes beside each (as NAME.ipynb, replacing an older one) a valid notebook of format 4 whose cells, in order, hold exactly the text of the file: every run of code lines ([number]code) with the same number is one code cell of exactly that code without outputs, and the text between is markdown cells, a new one after two or more blank lines. Only blank lines at the ends of cells are dropped, and the markdown files stay as they are.",
  ['inputs'], 'every markdown file',
  'no test', ['bin/metaknowledgeMdToNb.py'], [('convertString', 'bin/metaknowledgeMdToNb.py')], ['notebooks written'])

p('C38', 'Plots draw every node, edge and density of the graph',
  "For every graph quickVisual draws each node once, nodes with the same type in the same colour (and, up to the number of colours, different types in different ones), each edge between its nodes, and the node ids as labels at their nodes exactly when asked; a graph of which only some nodes have a type is refused with RuntimeError. graphDensityContourPlot plots over the whole grid (as coloured contours, as many as asked for, or as a solid surface) the blurred number of nodes in each cell, a layout that is given being moved and scaled from its square to the grid, with the nodes overlaid at the same places when asked, and refuses other graphs and layouts with TypeError. Neither changes the graph or the layout.",
  ['inputs', 'configurations'], 'every graph and layout',
  'no test', ['contour/plotting.py'], [('quickVisual, graphDensityContourPlot', 'contour/plotting.py')], ['artists of the figure'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w', encoding='utf-8') as f:
        for d in P:
            assert len(d['title']) <= 80, d['id']
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
