"""Writes /verif/properties.jsonl (kept as code so that the long texts stay reviewable)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': ['metaknowledge/' + f for f in files], 'mechanism': [{'name': n, 'where': 'metaknowledge/' + w} for n, w in mech],
                     'observe_at': observe, 'hook_needed': hook}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': 'metaknowledge/' + w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)


prop('P01', 'Loading files returns all of what they hold or says that it did not',
     'Loading a file or directory gives, for every intact record or grant file in it, exactly the entries and field values the file holds and never marks that file bad. '
     'When a file that its header still identifies cannot be read to its end, or is damaged so that entries are lost, the load raises an error, lists the file among the collection\'s errors or holds an entry marked bad: a part is never passed off as the whole. '
     'One damaged file never takes entries of other files with it.',
     ['inputs', 'fault_sequences', 'configurations'],
     'all mixes of WOS, Medline, ProQuest, Scopus, NSERC, NSF, CIHR and other CSV grant files, all block sizes and short reads, a read error, early end of file or flipped bit at any read of any file, files cut or overwritten at any byte, any directory order',
     'The tests load about a dozen fixed files from a working disk; a read error, a short file or a bad byte at any other place, and the way reads are split, are never met.',
     ['recordCollection.py', 'grantCollection.py', 'fileHandlers.py', 'WOS/wosHandlers.py', 'WOS/recordWOS.py', 'medline/medlineHandlers.py', 'medline/recordMedline.py',
      'proquest/proQuestHandlers.py', 'proquest/recordProQuest.py', 'scopus/scopusHandlers.py', 'scopus/recordScopus.py', 'grants/baseGrant.py', 'grants/nsercGrant.py', 'grants/nsfGrant.py', 'grants/cihrGrant.py'],
     [('file type detectors and parsers, each returning (entries, error)', 'fileHandlers.py'), ('collection constructors gather errors per file', 'recordCollection.py:RecordCollection.__init__'),
      ('grant files of one award merged over files', 'grantCollection.py:GrantCollection.__init__')],
     ['entries, ids, raw fields, bad flags and errors of the collection, or the exception raised'],
     [('errors', 'file name to the error met in it', 'mkCollection.py'), ('bad', 'whether anything was wrong', 'mkCollection.py')])

prop('P02', 'Ctrl-C or a failing disk is always passed on and alters nothing passed in',
     'An interrupt or I/O error that hits a load, an analysis, an export or a network construction at any moment reaches the caller instead of being swallowed or turned into a normal-looking result. '
     'It leaves every collection, record and graph that was passed in exactly as it was. The same call made again gives what it would have given the first time.',
     ['crash_points', 'fault_sequences', 'histories'],
     'every executed line of the library and every system call as the moment of the interrupt, every public read-only operation, histories of several such calls on one collection',
     'No test interrupts anything; there are thousands of instants per call and the lazily filled record fields make each a different partial state.',
     ['recordCollection.py', 'mkCollection.py', 'mkRecord.py', 'grantCollection.py', 'graphHelpers.py', 'diffusion.py', 'progressBar.py'],
     [('record fields are computed on first use and then remembered', 'mkRecord.py:ExtendedRecord.__getitem__'), ('parsers separate bad input from interrupts', 'WOS/wosHandlers.py'),
      ('progress display is closed by a context manager', 'progressBar.py')],
     ['the exception that reaches the caller', 'fields and contents of the arguments afterwards', 'result of the repeated call'],
     [('computed fields', 'memo of processed field values', 'mkRecord.py')])

prop('P03', 'A cached directory load gives exactly what reading the files would give',
     'Loading a directory with caching gives exactly the collection that reading its files now would give, whatever happened before: edits, restored or swapped files, clock jumps, damaged or foreign caches, crashes and power losses during earlier loads, and other processes loading or editing at the same time. '
     'A cache that cannot be read or written never makes a load fail that would work without it.',
     ['histories', 'schedules', 'crash_points', 'fault_sequences'],
     'all histories of loads, edits, cache damage, power losses at any system call with any surviving prefix, interleavings of concurrent loads, and I/O errors at any access to the cache; every version of a file has its own modification time',
     'The tests make one cache in a fixed directory once; staleness needs a history, and torn or racing caches need crashes and interleavings.',
     ['mkCollection.py', 'recordCollection.py', 'grantCollection.py'],
     [('cache validated by name, extension, version and file times', 'mkCollection.py:Collection._loadFromCache'), ('cache written to a temporary file and moved into place', 'mkCollection.py:Collection._createCache'),
      ('file times taken before the files are read', 'recordCollection.py:RecordCollection.__init__')],
     ['the collection a cached load returns compared with an uncached load at the same instant'],
     [('cache file', 'pickled collection with the times of its files', 'mkCollection.py')])

prop('P04', 'What a record was asked before never changes what it answers',
     'The value of a record\'s field, raw or processed, its citation, its bibtex entry and its written form are the same whatever was asked of the record before, in which order and by which name of the field, and the same for a copy, for a pickled record in another process and for the original. '
     'Adding, changing or deleting fields of a grant\'s copy never changes the original.',
     ['histories', 'schedules'],
     'all histories of field reads by short or long name, membership tests, iteration, citation creation, bibtex and file writing, copying, pickling, on all record types',
     'The tests read each field once from a fresh record; the lazily filled memo makes the answer a function of the history.',
     ['mkRecord.py', 'WOS/recordWOS.py', 'medline/recordMedline.py', 'proquest/recordProQuest.py', 'scopus/recordScopus.py', 'grants/baseGrant.py'],
     [('memo of processed fields and of special functions', 'mkRecord.py:ExtendedRecord'), ('pickling state', 'mkRecord.py:ExtendedRecord.__getstate__')],
     ['values returned by the mapping interface, createCitation, bibString, writeRecord'],
     [('computed fields', 'memo of processed field values', 'mkRecord.py')])

prop('P05', 'A collection written to a record file loads back as the same records',
     'A collection of WOS, of Medline or of Scopus records written to a file and loaded again, in this or another process, gives the same records with the same raw fields and an unmarked file, over any number of write and load rounds. '
     'If anything goes wrong while writing, the call raises; it never returns normally having written less than the whole collection.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'],
     'all collections of the formats with a writer, any earlier queries, block sizes and locales, an error at any write, open or close, full disks and short writes',
     'The tests write one fixed file to a working disk and compare sizes or counts.',
     ['recordCollection.py', 'WOS/recordWOS.py', 'medline/recordMedline.py', 'scopus/recordScopus.py', 'mkRecord.py'],
     [('writers of each record type', 'mkRecord.py:ExtendedRecord.writeRecord'), ('file header, separators and end mark', 'recordCollection.py:RecordCollection.writeFile')],
     ['the written bytes as loaded by a fresh collection', 'exceptions of the write call'])

prop('P06', 'CSV, bibtex and table exports hold every record and value or fail loudly',
     'A CSV, bibtex, burst, NLP, ranking or time series export that returns normally has left a complete file that holds, for every record that belongs in it, the values the collection itself reports, in any locale. '
     'If opening, writing or closing any of the output files fails, the call raises. Exporting changes neither the collection nor any argument.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'],
     'all collections and option combinations of the exporters, several output files, any locale encoding, errors at any open, write or close, short writes and full disks',
     'The tests check line counts of one export on a healthy disk in one locale.',
     ['recordCollection.py', 'mkCollection.py', 'mkRecord.py'],
     [('writeCSV, writeBib, forBurst, forNLP', 'recordCollection.py'), ('rankedSeries, timeSeries, cooccurrenceCounts', 'mkCollection.py')],
     ['bytes of the files parsed by an independent reader', 'exceptions', 'arguments afterwards'])

prop('P07', 'Graph files read back as the same graph and are never overwritten unasked',
     'A graph written as edge list and node attribute files and read back has the same nodes, edges, directions and attributes, whatever characters its names hold and whatever the locale. '
     'Writing with overwriting turned off never changes an existing file, and a write that fails raises. Filtering, merging and describing graphs gives exactly what the thresholds and counts say, in any order of such operations.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'],
     'all graphs the library makes from any collection and other graphs with string names, histories of filters, merges, writes and reads, errors at any file operation, any locale',
     'The tests write and read one graph once with ASCII names on a healthy disk.',
     ['graphHelpers.py'],
     [('writeGraph, writeEdgeList, writeNodeAttributeFile, writeTnetFile, readGraph', 'graphHelpers.py'), ('dropEdges, dropNodesByDegree, dropNodesByCount, mergeGraphs, graphStats, getNodeDegrees', 'graphHelpers.py')],
     ['the graph read back', 'bytes of files that existed before', 'graph after a filter compared with a model'])

prop('P08', 'The progress display never changes, delays for ever or breaks a result',
     'With the progress display on, every operation gives the same result, or the same error, as with it off, and ends within a bounded number of steps, for every terminal width and encoding, window resize, clock jump and timing of the display\'s thread. '
     'Once the call has returned or raised, nothing is written to the terminal any more and no thread is left running.',
     ['schedules', 'configurations', 'fault_sequences'],
     'all interleavings of the display thread with the work, terminal sizes from none to huge and changing, clock steps forwards and backwards, file names and record texts of any length',
     'The tests run with the display off or with one terminal and the timing the machine happens to give.',
     ['progressBar.py', 'recordCollection.py', 'mkCollection.py', 'grantCollection.py', 'graphHelpers.py', 'diffusion.py'],
     [('display thread polls a flag and the terminal size', 'progressBar.py:_ProgressBar.threadedUpdate'), ('finish and context exit stop and join it', 'progressBar.py:_ProgressBar.finish')],
     ['results with and without the display', 'terminal writes after the call', 'live threads after the call'],
     [('finished', 'tells the display thread to stop', 'progressBar.py')])

prop('P09', 'Networks are a function of the records alone and count them exactly',
     'Every co-author, co-citation, citation, bibliographic coupling, one-mode, two-mode, multi-mode, multi-level, co-investigator and diffusion network has exactly the nodes, edges, counts and weights its definition gives for the records. '
     'The result does not depend on the order records are iterated in, on the process, on what was asked of the collection before, or on options that only change attributes.',
     ['inputs', 'histories', 'configurations', 'schedules'],
     'all small corpora with shared authors, citations and keywords, all hash seeds and insertion orders, all option combinations, any earlier queries',
     'The tests compare summary counts of networks from one corpus under one hash seed.',
     ['recordCollection.py', 'mkCollection.py', 'grantCollection.py', 'diffusion.py'],
     [('networkCoAuthor, networkCoCitation, networkCitation, networkBibCoupling', 'recordCollection.py'), ('networkMultiLevel, networkOneMode, networkTwoMode, networkMultiMode', 'mkCollection.py'),
      ('networkCoInvestigator', 'grantCollection.py'), ('diffusionGraph', 'diffusion.py')],
     ['nodes, edges, counts, weights against a reference model; equality over processes with different hash seeds'])

prop('P10', 'Several threads may read one collection at the same time',
     'Any number of threads that only query, analyse, copy or export the same collection at the same time, in any interleaving, each get exactly what they would have got alone, and none of them fails. '
     'Afterwards the collection and its records answer as if nothing had happened.',
     ['schedules'],
     'all interleavings at the granularity of executed lines of two to four threads running the read-only operations on one shared collection with fresh or partly filled records',
     'No test uses more than one thread; the lazily filled fields of shared records race only under particular interleavings.',
     ['mkRecord.py', 'mkCollection.py', 'recordCollection.py', 'citation.py', 'genders/nameGender.py'],
     [('lazily computed fields are only ever replaced by equal values', 'mkRecord.py:ExtendedRecord.__getitem__'), ('lazily loaded journal and gender tables', 'citation.py')],
     ['result of every thread compared with the same call alone', 'state afterwards'],
     [('computed fields', 'memo shared by all threads', 'mkRecord.py')])

prop('P11', 'Collections behave as sets of records that remember what went wrong',
     'Through any history of adding, removing, popping, copying, chunking, splitting, filtering by year, citation or type, and of union, intersection, difference, symmetric difference and sum, in place or not, collections hold exactly the records the set definitions give. '
     'Results are independent of their operands: changing one collection later never changes another, and operators that are not in place change nothing. '
     'A file error known to an operand is still known to the result, and entries marked bad stay findable until they are dropped.',
     ['histories', 'inputs', 'fault_sequences'],
     'all operation histories over up to five collections, with bad records and damaged files, illegal arguments included',
     'The tests check the length of one union or difference of two collections.',
     ['mkCollection.py', 'recordCollection.py'],
     [('set operators, copy, chunk, split, dropBadEntries', 'mkCollection.py:Collection'), ('yearSplit, citeFilter, dropNonJournals, __add__', 'recordCollection.py:RecordCollection'),
      ('membership by id', 'mkCollection.py:CollectionWithIDs')],
     ['contents, sizes, errors, bad entries of every collection after every step against a model'])

prop('P12', 'The journal abbreviation database survives crashes and failed downloads',
     'After a crash, power loss, interrupt, disk or network error at any moment of looking up, adding, excluding or downloading journal abbreviations, the database holds either everything it held before or everything including the change, never less and never a part. '
     'A change that was reported as done is still there afterwards, and lookups in the same session and in later ones agree with it.',
     ['crash_points', 'fault_sequences', 'histories'],
     'all histories of additions, exclusions, downloads and lookups in several databases over several sessions, a crash at any system call with any surviving part of unsynced data, network errors at any page',
     'The tests touch the database once on a healthy machine with no network.',
     ['journalAbbreviations/backend.py', 'citation.py'],
     [('edits are made in a copy that replaces the database', 'journalAbbreviations/backend.py:_editDB'), ('download first, then merge', 'journalAbbreviations/backend.py:updatej9DB'),
      ('per session table of abbreviations', 'citation.py:Citation.isJournal')],
     ['abbreviations a fresh process finds in the database', 'results of journal lookups'],
     [('database files', 'dbm.dumb index and data', 'journalAbbreviations/backend.py'), ('abrevDict', 'abbreviations read so far in this session', 'citation.py')])

prop('P13', 'The gender data is either whole or absent and lookups follow it',
     'After any interrupt, crash, disk or network error during the download of the name data, the data is either absent and downloaded again on next use or complete; a part of it is never used. '
     'Every name lookup and every count per record or collection follows that data, and counts always add up to the number of authors.',
     ['crash_points', 'fault_sequences', 'histories'],
     'all moments of failure of the download, truncated and corrupted responses, power loss with any surviving prefix, histories of sessions and lookups, any locale',
     'The data is downloaded by hand once, tests either have it or not.',
     ['genders/nameGender.py', 'mkRecord.py', 'recordCollection.py'],
     [('download to a temporary file, then replace', 'genders/nameGender.py:downloadData'), ('table loaded once per process', 'genders/nameGender.py:getMapping')],
     ['gender reported for names and records in this and later sessions', 'files left behind'],
     [('mappingDict', 'name to gender table of this process', 'genders/nameGender.py')])

prop('P14', 'A command line session ends cleanly and writes exactly what was asked',
     'For every sequence of answers, valid or not, a command line session terminates, asks before it overwrites an existing file whose name was typed in and leaves it alone if told so (a name given with --name is used without asking), and writes exactly the files the answers ask for, with the contents the library itself would give. '
     'End of input, Ctrl-C and failing files at any moment end the session or the step; they never corrupt or silently skip the output.',
     ['programs', 'fault_sequences', 'histories'],
     'all dialogues over the menus with valid, invalid and missing answers, interrupts and end of input at any prompt, errors at any file operation',
     'The tests feed a few fixed dialogues through a mock and check little of the files.',
     ['bin/metaknowledgeCLI.py'],
     [('menus and prompts', 'bin/metaknowledgeCLI.py:inputMenu'), ('overwrite confirmation', 'bin/metaknowledgeCLI.py:getOutputName')],
     ['terminal dialogue, files after the session, how the session ended'])

prop('P15', 'Loading is the same in every process and for every directory order',
     'Two processes that load the same files, or one that loads them again after the directory was copied, listed in another order or reached by another path, get equal collections: same ids, fields, grouping of grant rows, errors and bad marks. '
     'Records pickled in one process are equal to, and found in collections of, another.',
     ['configurations', 'schedules'],
     'all directory orders, hash seeds and ways to name the path; files that share records or awards',
     'The tests run in one process with one hash seed and one directory order.',
     ['recordCollection.py', 'grantCollection.py', 'grants/baseGrant.py', 'grants/nsercGrant.py', 'mkRecord.py'],
     [('sorted directory listing', 'recordCollection.py:RecordCollection.__init__'), ('ids from a stable hash', 'grants/baseGrant.py:stableHash'), ('equality by id', 'mkRecord.py:Record.__eq__')],
     ['canonical dump of the collection in processes with different hash seeds and listings'])

prop('P16', 'Counting analyses report exactly what the records hold',
     'Rankings, time series, citation counts, reference spectroscopy, co-occurrence tables, local citation counts, citation filters, year splits and diffusion counts are exactly what counting the records\' fields gives, ties and missing values included. '
     'They do not depend on iteration order, process, earlier queries or the output form chosen, and the different forms of one analysis agree with each other.',
     ['inputs', 'histories', 'configurations'],
     'all small corpora of every record type, all options, all hash seeds, any earlier queries',
     'The tests look at a few totals of one corpus.',
     ['mkCollection.py', 'recordCollection.py', 'diffusion.py', 'RCglimpse.py'],
     [('rankedSeries, timeSeries, cooccurrenceCounts, glimpse', 'mkCollection.py'), ('rpys, getCitations, localCiteStats, localCitesOf, citeFilter, yearSplit, genderStats', 'recordCollection.py'), ('diffusionCount', 'diffusion.py')],
     ['returned tables against a reference count; equality over processes with different hash seeds'])

prop('P17', 'Equal citation strings give equal citations',
     'Two citations made from the same string are equal, hash alike and have the same parts, and equality of citations is symmetric and agrees with hashing.',
     ['inputs'],
     'all strings', 'The tests parse a handful of strings.',
     ['citation.py'],
     [('citation parser', 'citation.py:Citation.__init__'), ('equality by DOI, else by parts', 'citation.py:Citation.__eq__')],
     ['fields, equality and hash of citations'])

prop('P18', 'A markdown file made into a notebook keeps every line or fails loudly',
     'metaknowledge-mdToNb makes of every markdown file it is given a valid notebook beside it, which holds every line of the file, in order, as text or code of the same cells, whatever characters it has and however it ends. '
     'A file that cannot be read, is no text or is itself the notebook is refused and leaves the notebook that was there as it was; a failing disk or Ctrl-C is never hidden. No other file is touched.',
     ['inputs', 'histories', 'faults'],
     'all sequences of conversions and edits of text files of any contents and ends of lines, any failing call of the disk, Ctrl-C at any call',
     'There is no test of it.',
     ['bin/metaknowledgeMdToNb.py'],
     [('splitting into cells', 'bin/metaknowledgeMdToNb.py:convertString'), ('writing', 'bin/metaknowledgeMdToNb.py:convert'), ('escaping', 'bin/metaknowledgeMdToNb.py:stringPreprossesing')],
     ['the notebook as JSON, cell by cell', 'all files of the directory before and after', 'exception or exit'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w', encoding='utf-8') as fh:
        for d in P:
            fh.write(json.dumps(d, ensure_ascii=False) + '\n')
