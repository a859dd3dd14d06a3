"""Writes properties.jsonl (the committed file is its output)."""
import json, os
DS='pyuff/datasets/dataset_%s.py'
P=[]
def where(sym,files):
    if sym.startswith('UFF.'): return 'pyuff/pyuff.py'
    if sym=='fix_58b': return DS%58
    if sym=='convert_dataset_2412_to_82': return 'pyuff/tools.py'
    if sym=='prepare_group': return DS%2429+' and '+DS%2467
    if sym.startswith('prepare_'): return DS%sym[8:]
    return files[0]
def p(id,title,statement,over,text,why,files,syms):
    assert len(title)<=80
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=x,where=where(x,files)) for x in syms])))
p('C01','Dataset 58 survives write-then-read in every storage form',
 'Any dataset-58 record written with write_sets and read back with read_sets carries the same signal, abscissa and header fields, whatever the combination of real/complex ordinate, even/uneven abscissa, ASCII/binary storage and single/double precision. Binary storage keeps samples (and uneven abscissae) bit for bit at the chosen precision, ASCII keeps every sample to the published width (12 significant digits double, 6 single; 6 for an uneven ASCII abscissa), and an even abscissa comes back as its first value plus k times its first increment (6 digits each). The number of points, the storage form and the precision that come back are the ones that were asked for (force_double forces double precision).',
 ['inputs','configurations'],'all numeric vectors of >= 2 samples and all legal header values, over the 16 storage forms',
 'test_58 writes a handful of vectors of fixed length in a few of the 16 forms; block remainders, magnitudes, three-digit exponents and single-precision binary are not sampled.',
 ['pyuff/pyuff.py',DS%58],['UFF.write_sets','UFF.read_sets','prepare_58'])
p('C02','ASCII 58, binary 58b and header-only views of one signal agree',
 'The same dataset-58 record written once as ASCII and once as binary reads back with equal header fields and with samples that agree to the ASCII precision. Reading with header_only=True returns exactly the header fields of a full read, with the sample and abscissa entries present but None, for every set of a file, and never changes what a later full read returns.',
 ['inputs','configurations'],'all dataset-58 records, both storage forms, both read modes, in any order',
 'Tests compare one stored ASCII/binary sample file; header_only is exercised on one file.',
 ['pyuff/pyuff.py',DS%58],['UFF.read_sets','UFF.write_sets'])
p('C03','Geometry sets (15, 18, 82, 2411, 2412, 2420) survive write-then-read',
 'Nodes, coordinate systems, trace lines and elements written with write_sets are read back complete, in order and with the same labels, attributes, names and connectivity; coordinates are exact for the double-precision types 2411 and 2420 and keep 6 significant digits for types 15 and 18. This holds for any number of entries, any trace-line length (with repeated and move-to nodes), any mix of element types (beams and elements of more than 8 nodes included), and for elements given in the per-kind triangle/quad form as well as in the per-descriptor form.',
 ['inputs'],'all legal entry lists (labels up to 9 digits) and coordinate values, of any length',
 'Tests use 3 to 11 entries with friendly values; line wrapping, duplicates, beams and big elements are hit by at most one sample file.',
 ['pyuff/pyuff.py',DS%15,DS%18,DS%82,DS%2411,DS%2412,DS%2420],['UFF.write_sets','UFF.read_sets'])
p('C04','Metadata sets (151, 164, 1858, 2400) survive write-then-read',
 'Model header, units, dataset-58 qualifiers and model-UID records written with write_sets are read back with every text and integer field equal and every real field equal to the precision of its column (exact for unit factors, 8 significant digits for qualifiers). Values that fill their published column completely are not shifted, cut or merged with their neighbours.',
 ['inputs'],'all field values that fit the published column widths',
 'Tests write one typical record per type, with short values in every column.',
 ['pyuff/pyuff.py',DS%151,DS%164,DS%1858,DS%2400],['UFF.write_sets','UFF.read_sets'])
p('C05','Result sets (55, 2414) survive write-then-read',
 'Analysis results written with write_sets are read back with the same identification, analysis header, node or element labels and result values (6 significant digits). This holds for the supported analysis types (55: normal mode, complex eigenvalue first/second order, frequency response; 2414: frequency response and the general form), for real and complex values with 3 or 6 components per node (55), for 1 to 3 complex components (2414), and for results at nodes, on elements and at nodes on elements (2414).',
 ['inputs','configurations'],'all supported analysis types, value kinds and locations, any number of nodes or elements, positive and negative values of any two-digit exponent',
 'Tests write random mode shapes for one or two configurations only; negative header values, 6-component complex data and the general 2414 form are read from samples, not written.',
 ['pyuff/pyuff.py',DS%55,DS%2414],['UFF.write_sets','UFF.read_sets'])
p('C06','Group sets (2429, 2467) survive write-then-read',
 'A list of permanent or physical groups prepared with the library and written with write_sets is read back as the same list, in order: each group keeps its number, name, its six active-set numbers and the complete ordered list of its entities (for 2467 with node-leaf and component ids). This holds for any number of groups and any number of entities per group, including none and counts that only partly fill the last line; active-set numbers left out are 0.',
 ['inputs'],'all lists of groups, entity counts from zero upwards',
 'Tests never write 2429 and write one 2467 example.',
 ['pyuff/pyuff.py',DS%2429,DS%2467],['prepare_2429','prepare_2467','prepare_group','UFF.write_sets','UFF.read_sets'])
p('C07','A file behaves as an ordered list of sets under any write history',
 'After any sequence of add and overwrite writes, of single sets or lists, through one or several UFF objects, reopenings, refreshes, deletions and external appends, the file reads back as exactly the list of sets the sequence implies, in order, each with its own content. Adding never alters earlier sets, sets of types the library does not write are left out, overwriting removes everything that was there, and the counts and types the object reports follow each write at once (for changes made elsewhere: after refresh).',
 ['histories'],'all finite sequences of container operations over all supported set types',
 'Tests do at most one overwrite and a couple of adds of the same type.',
 ['pyuff/pyuff.py'],['UFF.write_sets','UFF.read_sets','UFF.refresh','UFF.get_n_sets','UFF.get_set_types'])
p('C08','Written files follow the published universal-file column layout',
 'Every set that write_sets produces starts with the delimiter line and its set number, ends with the delimiter, and has every value in the columns the published record layout gives it, so that an independent fixed-column reader that knows only the published layout recovers the same values. Counts in the records (points, nodes per trace line, nodes per element, entities per group, values per element, bytes of a binary body, ASCII header lines, byte order) describe what actually follows.',
 ['inputs'],'all supported set types and all their legal values and storage forms',
 'Tests read written files only with the library itself, so an error shared by its writer and reader is invisible.',
 ['pyuff/pyuff.py',DS%15,DS%18,DS%55,DS%58,DS%82,DS%151,DS%164,DS%1858,DS%2400,DS%2411,DS%2412,DS%2414,DS%2420,DS%2429,DS%2467],['UFF.write_sets'])
p('C09','Files from other software in the published layout are read correctly',
 'A file laid out as published but produced by another program is read with the values it holds: with LF or CRLF line ends, delimiter lines padded with blanks or not, padded or unpadded text lines, records padded to 80 columns or not, E or (where the layout has D fields) D exponents of either case, records wrapped over several lines, and for binary 58b bodies of either byte order and either precision. Each supported set type is read this way in any mixture within one file.',
 ['inputs','configurations'],'all supported set types x layout-conforming renderings',
 'Sample files give one rendering per type; big-endian, CRLF and padded variants are hardly represented.',
 ['pyuff/pyuff.py',DS%15,DS%18,DS%55,DS%58,DS%82,DS%151,DS%164,DS%1858,DS%2400,DS%2411,DS%2412,DS%2414,DS%2420,DS%2429,DS%2467],['UFF.read_sets','UFF.refresh'])
p('C10','A write that fails raises and costs no data already in the file',
 'When a set cannot be written - a required field is missing, a value at any position is unusable, the function or analysis type is unsupported, the mode is unknown, there is nothing to write, or the file cannot grow - write_sets raises. A failed add leaves every set that was in the file (and every set of the same call that was completed before) readable with unchanged content and adds no partial set, and a failed overwrite leaves no partial set; the next valid write succeeds and is read back as usual, through the same or a new object.',
 ['fault_sequences','inputs'],'all set types x the position of the first bad field or element or of the first byte that cannot be stored, in any file history',
 'Tests contain no failing write.',
 ['pyuff/pyuff.py',DS%58],['UFF.write_sets'])
p('C11','Truncation or damage of one set does not cost the other sets',
 'When a file is cut at any byte, opening it neither fails nor hangs, and every set whose closing delimiter lies before the cut is still indexed and read with unchanged content. When bytes inside one set are altered without touching delimiters, all other sets are still read with unchanged content; reading the damaged set returns or raises, and never hangs or changes the file.',
 ['crash_points','inputs'],'all cut positions and all delimiter-preserving byte damage of files of any supported sets',
 'No test opens a truncated or damaged file.',
 ['pyuff/pyuff.py'],['UFF.refresh','UFF.read_sets'])
p('C12','prepare_* functions return exactly what they were given, or refuse it',
 'Each prepare_ function returns a dictionary with the right set type in which every supplied argument appears unchanged under its own name; arguments left out are absent, or present as None when the full dictionary is asked for. Values of a wrong kind or outside a documented range are refused with an exception for every argument that is validated, and a prepared set needs no further change to be written and read back.',
 ['inputs'],'all arguments of all prepare functions (15, 18, 55, 58, 82, 151, 164, 1858, 2400, 2411, 2412, 2414, 2420, 2429, 2467 and both group helpers), alone and in combination',
 'Tests call each function once or twice with typical values and never check each argument separately.',
 [DS%x for x in (15,18,55,58,82,151,164,1858,2400,2411,2412,2414,2420,2429,2467)]+['pyuff/tools.py'],['prepare_15','prepare_18','prepare_55','prepare_58','prepare_82','prepare_151','prepare_164','prepare_1858','prepare_2400','prepare_2411','prepare_2412','prepare_2414','prepare_2420','prepare_2429','prepare_2467','prepare_group'])
p('C13','Optional fields get fixed defaults and supplied values are never replaced',
 'For any subset of optional fields left out, writing succeeds and the file reads back with the documented default for each of them and the supplied value for every other field; the same fields in different sets never influence each other. Writing does not alter the values the caller supplied (only missing optional fields are filled in, data-type fields follow the precision written, and non-finite samples are replaced in the dictionary, never in the array the caller passed), and writing the same dictionary again produces the same bytes.',
 ['inputs'],'all subsets of the optional fields of all set types, and repeated writes of the same or of different dictionaries',
 'Tests leave out one fixed subset of the optional fields per type at most.',
 ['pyuff/tools.py','pyuff/pyuff.py',DS%15,DS%18,DS%55,DS%58,DS%82,DS%151,DS%164,DS%2400,DS%2414,DS%2420,DS%2467],['UFF.write_sets'])
p('C14','Reading, rewriting and reading again is a fixed point',
 'Any set that was read from a file (for 58: of a function type that can be written and with at least two points) can be written to another file without preparation and reads back with the same content, at the precision of the written form. Rewriting that second file in the same way reproduces it byte for byte (the sign of zero aside), so data does not drift over generations; this holds for sets of all supported types, from the library itself, from other programs and from the sample files in the repository.',
 ['inputs','histories'],'all readable sets x storage and precision choices x number of generations',
 'Tests re-write a few sample sets of types 58 and 2414 once.',
 ['pyuff/pyuff.py']+[DS%x for x in (15,18,55,58,82,151,164,1858,2400,2411,2412,2414,2420,2429,2467)],['UFF.read_sets','UFF.write_sets'])
p('C15','Non-finite samples of a 58 signal are stored as finite numbers',
 'Whatever NaN or infinite samples a dataset-58 signal contains, real or complex, in any storage form, it is written and read back with finite samples only: NaN parts as zero and infinite parts as finite values of the same sign and of the largest magnitude the form can carry. All finite samples, the length of the signal and the header are unaffected.',
 ['inputs','configurations'],'all placements of NaN, +inf and -inf in real and imaginary parts, over the 16 storage forms',
 'Tests sanitise one ASCII vector with a few NaN/inf.',
 ['pyuff/pyuff.py',DS%58],['UFF.write_sets'])
p('C16','fix_58b repairs misplaced delimiters and loses nothing',
 'For a file whose binary 58b sets have their closing delimiter on a line of its own, fix_58b writes a file in which the closing delimiter of each of them directly follows its data and all sets are indexed in order and read with the intended content; on a file without that fault the repaired copy reads the same as the original. The source file is left unchanged, the copy is written under the given name or under the default name, and further sets can be added to it.',
 ['inputs'],'all files of 58/58b and other supported sets, with the fault in any subset of the sets and with or without a final line end',
 'Tests repair one stored file.',
 [DS%58],['fix_58b'])
p('C17','Converting 2412 elements to 82 trace lines draws every quad once',
 'convert_dataset_2412_to_82 returns, for the element sets that contain quads, one trace-line set each in order, numbered by the position of its source set, whose nodes draw the closed outline of every quad in order with a move (0) after each edge, and whose node count is the length of that list. Sets of other types and element sets without quads contribute nothing, the input is not altered, and the result can be written and read back.',
 ['inputs'],'all lists of sets with any number of element sets, quads and other element kinds',
 'The test converts one file with one element set.',
 ['pyuff/tools.py'],['convert_dataset_2412_to_82'])
p('C18','Header text is kept exactly, and undecodable text never blocks the data',
 'Text fields of every set type (printable text of any script that fits its column) are read back exactly as they were written, in ASCII and binary sets alike, without affecting neighbouring fields. When the text of a set in a file is not valid UTF-8, the set and all other sets are still indexed and read, with all numbers unchanged and only the undecodable characters replaced.',
 ['inputs'],'all printable strings within the column width and all placements of undecodable bytes in text fields',
 'One sample file with a non-ASCII header is read; no non-ASCII text is written.',
 ['pyuff/pyuff.py',DS%58],['UFF.write_sets','UFF.read_sets'])
p('C19','The reported index of a file always matches the file',
 'After opening, refreshing or writing, the number of sets, their types in order and their storage formats (1 for binary, 0 for ASCII) as reported by the object are those of the file, for any mixture of supported and unsupported sets, padded delimiters, text between sets and an unfinished last set; the status says whether the file could be indexed. For a missing or emptied file no sets are reported.',
 ['inputs','histories'],'all files composed of sets, foreign sets and stray text, and all sequences of replacing, emptying, deleting and re-creating the file followed by refresh',
 'Tests check set types for a few sample files; the formats are never checked on binary files.',
 ['pyuff/pyuff.py'],['UFF.refresh','UFF.get_n_sets','UFF.get_set_types','UFF.get_set_formats','UFF.get_status','UFF.file_exists'])
p('C20','Sets can be read in any order and any combination without side effects',
 'Reading all sets, one set by number, or any list of numbers (repeats included) returns for each number the same content in the requested order, independent of earlier reads; sets of the types the library announces as supported come back with their content, unsupported ones with their type only, without disturbing the others. Numbers outside the file and reads from a missing file raise, and reading never changes the file.',
 ['inputs','histories'],'all sequences of read calls over files of any mixture of sets',
 'Tests read all sets or a single index of a sample file.',
 ['pyuff/pyuff.py'],['UFF.read_sets'])
ALL=['pyuff/pyuff.py']+[DS%x for x in (15,18,55,58,82,151,164,1858,2400,2411,2412,2414,2420,2429,2467)]
p('C21','The bytes of a written set depend on its content only',
 'The bytes write_sets produces for a set follow from its content and from force_double alone. Writing several sets in one call or in several, through one or several objects, into a new file, behind other sets or text or over old content gives what was there (and a line end, where its last line had none), followed by the same bytes for each set in order. Sets written before, reads and failed writes in between, entries without a meaning for the type, the order of the entries of a dictionary and the kind of container or number that holds a value (list, tuple, array of any memory layout or byte order, Python or numpy number) make no difference. (Kinds of 2412 elements are written in the order they are given; 2414 values are given as arrays; default dates of 151 are those of the day.)',
 ['inputs','histories'],'all lists of sets, all ways to divide them into calls and objects, all earlier contents of the file, and all equivalent forms of each dictionary',
 'Tests write each set once, in one form, and compare what is read, never the bytes of two ways to write the same.',
 ALL,['UFF.write_sets'])
p('C22','A call leaves nothing behind but its result',
 'Every call, whether it succeeds or raises, has closed the files it opened when it ends, changes no file but the one it was asked to write (whose kind, permissions and other names stay), prints nothing when it succeeds (fix_58b names the file it wrote), and leaves the working directory, environment, locale, random states, numpy and warning settings, handlers, limits, threads and exit handlers of the process as they were. Calls that only read open no file for writing and change no time of modification. When objects and results are dropped, none of the arrays they held is kept alive by the library.',
 ['inputs','histories'],'all sequences of opening, querying, reading, writing, refused writes, repairs, preparations and conversions, on files that are intact, damaged, linked or missing',
 'Tests look at results only; no test observes open files, the directory, permissions, output or settings of the process, least of all after an exception.',
 ALL+['pyuff/tools.py'],['UFF.refresh','UFF.read_sets','UFF.write_sets','fix_58b'])
p('C23','Separate objects do not disturb each other, in any interleaving of threads',
 'Threads that use UFF objects of their own - on files of their own for writing, on any files for reading - get the same results, refusals and file contents as each of them gets alone, whatever the order in which their steps are executed.',
 ['schedules','inputs'],'all interleavings (by line executed) of reads and writes of all types in two or three threads',
 'Tests run one call after the other; state shared between calls shows only when another call runs between two steps of one.',
 ALL,['UFF.refresh','UFF.read_sets','UFF.write_sets'])
p('C24','Whatever bytes a file holds, it can be opened, indexed and extended',
 "Any byte string can be opened as a file: a delimiter is '    -1' followed by a line end, by the end of the file or by 74 blanks, delimiters pair up in order, and each pair is one set, whose type and format are read from the first seven columns of the line after its first delimiter. Each set is then read or refused with an exception on its own, in bounded time; a set of an unsupported type is never refused; reading all sets gives these same results, or is refused when one of them is. The file stays as it is. A set added behind complete sets is indexed and read, with the sets before it as they were.",
 ['inputs'],'all byte strings',
 'Tests open a few well-formed sample files.',
 ALL,['UFF.refresh','UFF.read_sets','UFF.write_sets','fix_58b'])
p('C25','A process that dies in the middle of a call costs no set written before',
 "At every moment of a write in add mode, also of one that fails, the file holds, byte for byte, what it held before the call; the sets of the call completed so far follow it. So a process killed anywhere in the call leaves a file in which every set that was complete is indexed and read with its content, and no set that is not complete is indexed. In overwrite mode the file at every moment holds the old sets or the first sets of the call, complete ones only. Opening, querying, reading and repairing to another name never change the file, not for a moment.",
 ['crash_points','inputs'],'every line executed in the library and every file operation, as the point at which the process dies, for all types, lists of sets and earlier contents',
 'Tests look at the file when the call has ended; what is in it while the call runs shows only to another process or after a crash.',
 ALL,['UFF.write_sets','UFF.refresh','fix_58b'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(here,'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
