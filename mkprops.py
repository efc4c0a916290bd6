"""Writes properties.jsonl (kept as a script only to have it readable)."""
import json
PK, DU, TX, XL, DB = ('channelpack/pack.py', 'channelpack/datautils.py',
                      'channelpack/readtext.py', 'channelpack/readxl.py',
                      'channelpack/dbf.py')
X = 'channelpack/xlrd/'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None):
    a = {'files': files,
         'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


prop('C01', 'The parts of a mask are its maximal True runs',
     'For any boolean mask, the list of parts derived from it has exactly one '
     'slice per maximal run of consecutive True elements, in increasing order: '
     'each slice starts at the first and stops just after the last element of '
     'its run, no slice covers a False element, and every True element is '
     'covered. Deriving the parts never fails and never changes the mask.',
     ['inputs'], 'every boolean sequence of any length',
     'Tests try about ten masks shorter than 30 elements; the claim is about '
     'every length and arrangement.',
     [DU, PK], [('slicelist', DU + ' slicelist'),
                ('ChannelPack._slicelist', PK)])
prop('C02', 'Part enumeration is always in step with the mask',
     'After any sequence of public operations on a pack (assigning data, mask, '
     'names or the minimum duration, calling the duration, start/stop, mask '
     'reset or append operations, in any order), asking for part k returns the '
     'elements of the k-th maximal True run of the mask as it is right then, '
     'and the enumeration of parts is 0..number of runs-1. This holds also '
     'while a minimum duration is set, and the mask then has no shorter run '
     'after the mask was assigned or the requirement was set.',
     ['histories', 'inputs'],
     'every finite history of public operations, every mask and data length',
     'Tests run a few fixed histories of two or three steps.',
     [PK, DU], [('ChannelPack.__setattr__ mask/mindur branches', PK),
                ('ChannelPack.duration, startstop, mask_reset', PK),
                ('ChannelPack.parts, __call__', PK)],
     [('_cached_slicelist', 'the runs of mask, rebuilt whenever mask changes'),
      ('mindur', 'persistent minimum length of a run')])
prop('C03', 'A channel call returns exactly the selected elements',
     'A call for a channel returns: with a part number, the elements of that '
     'True run (an IndexError when there is no such part); with "filter", the '
     'elements at True mask positions in order; with "nan", an array of full '
     'length with unselected elements replaced by nan for numeric channels and '
     'None for all others, selected elements unchanged; with "ignore" or no '
     'setting, the array as is. A part number overrides the setting, and the '
     'argument overrides the attribute of the pack.',
     ['inputs', 'configurations'],
     'every mask, array, dtype kind, part number, and combination of argument '
     'and attribute setting',
     'Tests sample some combinations on arrays of about ten elements.',
     [PK, DU], [('ChannelPack.__call__', PK), ('masked', DU)])
prop('C04', 'Duration requirements clear exactly the wrong-length runs',
     'Requiring a minimum (or, when asked for, a maximum) duration sets to '
     'False exactly those maximal True runs of the mask whose length is '
     'smaller (larger) than the integer part of duration times sample rate, '
     'and changes no other element of the mask. The updated mask is returned, '
     'is the mask of the pack, and a persistent minimum duration has this same '
     'effect with sample rate 1 whenever it is set and whenever a mask is '
     'assigned.',
     ['inputs'], 'every mask, duration, sample rate and kind of requirement',
     'Tests cover a handful of masks and durations.',
     [PK], [('ChannelPack.duration', PK),
            ('ChannelPack.__setattr__ mindur', PK)])
prop('C05', 'Start and stop triggers select start-until-stop intervals',
     'With start and stop triggers, an element of the result is True exactly '
     'when its stop trigger is false and a true start trigger occurred at or '
     'before it with no true stop trigger from that position up to it; the '
     'result is a bool array as long as the shorter of the two sequences. It '
     'is and-ed into the mask (only) when requested, and returned in both '
     'cases.',
     ['inputs'], 'every pair of trigger sequences of any length',
     'Tests cover a few short trigger sequences.',
     [DU, PK], [('startstop_bool', DU), ('ChannelPack.startstop', PK)])
prop('C06', 'Channel lookup: key, then name, then fallback string',
     'A channel reference resolves to the data key equal to it if there is '
     'one, else to the key of the first name equal to it, else, if it is '
     'exactly the fallback prefix followed by a decimal number that is a data '
     'key, to that key; anything else raises KeyError and never returns data '
     'of some other channel. Asking for the name of a channel resolves the '
     'channel the same way and gives the name stored for that key, or the '
     'prefix followed by the key when the fallback is asked for.',
     ['inputs', 'configurations'],
     'every set of data keys, names, prefix and reference',
     'Tests use one or two fixed packs.',
     [PK], [('ChannelPack._datakey', PK), ('ChannelPack.name', PK)])
prop('C07', 'Data and names only ever hold integer keys and flat arrays',
     'Whatever way items are put into the data or names of a pack '
     '(construction, item assignment, update, setdefault, from a dict or from '
     'pairs), every key is an integer, otherwise TypeError is raised; every '
     'value in data is a one-dimensional numpy array equal to the sequence '
     'given, otherwise ValueError is raised. Accepted input is stored '
     'completely, and when a key or value is refused by these rules the '
     'content stays as it was.',
     ['inputs', 'histories'], 'every sequence of updates with any keys/values',
     'Tests try a few good and bad arguments.',
     [PK], [('IntKeyDict', PK), ('NpDict', PK)])
prop('C08', 'Appending concatenates every channel or changes nothing',
     'Appending another pack makes each channel the old array followed by the '
     "other pack's array of the same key, adopts copies of the other pack's "
     'data or names where this pack has none, extends the list of file names, '
     'and resets the mask to all True over the new length. When non-empty data '
     'or names have different key sets, ValueError is raised and both packs '
     'are as before (likewise if the types of some channel cannot be '
     'combined); the other pack is never changed.',
     ['inputs', 'histories'], 'every pair of packs',
     'Tests append two or three fixed packs and check one mismatch each.',
     [PK], [('ChannelPack.append_pack', PK)])
prop('C09', 'A reset mask is all True and as long as the data',
     'After construction, assignment of new data, a mask reset or an append, '
     'the mask (when no minimum duration is set) is a bool array, all True, '
     'with the length of the channel that has the lowest key (empty for an '
     'empty pack), whatever the values and types of the data. With a minimum '
     'duration set, it is all True if that length is enough and all False '
     'otherwise.',
     ['inputs', 'histories'], 'every data content, key set and dtype',
     'Tests use small numeric arrays with few keys.',
     [PK], [('ChannelPack.mask_reset', PK),
            ('ChannelPack.__setattr__ data', PK)])
prop('C10', 'Records are the row-wise view of the called channels',
     'The i-th record has one field per name, in key order (or, with '
     'fallback, per data key named by prefix and key), holding the i-th '
     'element of what a call of that channel with the same part and nof '
     'arguments returns; the number of records is the length of the shortest '
     'of those arrays. Invalid field names raise ValueError and no record is '
     'produced.',
     ['inputs', 'configurations'], 'every pack, mask and selection argument',
     'Tests iterate one or two small packs.',
     [PK], [('ChannelPack.records', PK)])
prop('C11', 'Files opened by a reader are closed, streams of the caller not',
     'A text or DBF reader given a file name closes the file it opened on '
     'every way out, including any error while reading; a stream given by the '
     'caller is never closed. Probing a stream for its kind leaves the '
     'position of the stream as it was, and the pack gets the name of the '
     'source (empty when it has none).',
     ['inputs', 'fault_sequences'],
     'every source and every point where reading may fail',
     'Tests do not inject read errors nor check that files are closed.',
     [TX, DB], [('contextopen', TX), ('textpack', TX), ('lazy_textpack', TX),
                ('dbfpack', DB)])
prop('C12', 'Text columns land under their own column number',
     'Reading delimited text gives, for every requested column (all columns '
     'if none is requested, an integer, a sequence in any order, or the keys '
     'of given names), exactly the values of that column keyed by its 0-based '
     'number, and no other column. Names read from the line before the data '
     'are paired with the same numbers, given names are used as is, and '
     'exactly the requested number of top lines is skipped, with or without '
     'debug output.',
     ['inputs', 'configurations'],
     'every text, delimiter, column selection and options',
     'Tests read a few fixed files, with sorted column selections.',
     [TX], [('textpack', TX), ('linetuples', TX)])
prop('C13', 'Text values are converted by the rule set by the first line',
     'Each column is numeric if its field on the first data line is a number '
     'with decimal point or comma, else text; numeric fields become the '
     'float they denote (empty means nan, decimal comma understood once any '
     'numeric first field uses it), text is kept as is, stripped or decoded '
     'as requested, and converters given for a column replace the rule. Every '
     'non-blank line gives exactly one row, in order, blank lines give none.',
     ['inputs', 'configurations'],
     'every text, delimiter, encoding and converter set',
     'Tests read a few fixed files and strings.',
     [TX], [('linetuples', TX), ('_floatit', TX), ('_floatit_bytes', TX)])
prop('C14', 'A DBF file is decoded record by record as specified',
     'Reading a DBF file gives the field names and specs of the header, then '
     'one row per record not marked deleted, in file order, each value taken '
     'from the bytes of its own field: numbers as int or float (nan when '
     'blank), dates as dates or None, logicals as T/F/?, other types as text. '
     'A pack of the file has one channel per field, numbered from 0 in header '
     'order and named accordingly.',
     ['inputs'], 'every well-formed header and record content',
     'Tests read three fixed files, of which few records are deleted.',
     [DB], [('dbfreader', DB), ('dbfpack', DB)])
prop('C15', 'Reading some DBF fields equals selecting from a full read',
     'For any DBF file and any selection of its field names, reading only '
     'those fields gives the same rows, values and specs as reading the '
     'whole file and keeping those fields, also with deleted records '
     'anywhere; in the pack each selected field is keyed by its position in '
     'the header and has its name.',
     ['inputs', 'configurations'],
     'every well-formed file and every set of names',
     'Tests compare a few selections on files without deleted records.',
     [DB], [('dbfrecords', DB), ('dbfpack', DB)])
prop('C16', 'Spreadsheet addresses and column numbers are one-to-one',
     'Converting column letters to a number is the bijective base-26 '
     'numbering (A is 0, Z is 25, AA is 26, case ignored), and the column '
     'names produced for a number convert back to that same number; a cell '
     'address gives that column and its row number minus one, and row numbers '
     'below one are refused. A column selection such as "C:E, H" '
     'normalizes to the sorted list of exactly the columns written.',
     ['inputs'], 'every column number, letter string and selection',
     'Tests try a few addresses.',
     [XL, X + 'formula.py', X + 'book.py', X + 'xlsx.py'],
     [('letter2num, cellreference, normalize_usecols', XL),
      ('colname, cellname', X + 'formula.py'),
      ('colname', X + 'book.py'),
      ('cell_name_to_rowx_colx', X + 'xlsx.py')])
prop('C17', 'Spreadsheet cells convert by the types found in their column',
     'A column of only numbers and missing cells keeps its numbers with nan '
     'for missing; of only text and missing cells keeps its text with the '
     'empty string for missing; in any other column dates become datetimes '
     "per the workbook's date system, missing cells None, booleans True or "
     'False and the rest is kept. Each requested column gives one value per '
     'row of the range, in row order.',
     ['inputs'], 'every sequence of cell types and values',
     'Tests read a few columns of two files.',
     [XL], [('sheet_columns', XL)])
prop('C18', 'A spreadsheet range is read cell for cell',
     'The pack of a sheet has, for exactly the requested columns of the range '
     '(all of them by default), the cells of that column from the first data '
     'row to the last row of the range, keyed by the 0-based sheet column; '
     'with a header its row names the columns and is not data, and a header '
     'given by address names them from that row. Columns outside of the '
     'range raise ValueError.',
     ['inputs', 'configurations'],
     'every sheet size, range, header choice and column selection',
     'Tests read two fixed workbooks.',
     [XL], [('sheetpack', XL), ('cellreference', XL),
            ('normalize_usecols', XL)])
prop('C19', 'Excel date numbers and calendar dates agree both ways',
     'Every valid Excel date number in both date systems maps to the calendar '
     'date and time it denotes: consecutive day numbers give consecutive '
     'Gregorian dates from the start of the system, and the time of day is '
     'the fraction of the day. Converting a date back gives the same day '
     'number, and numbers that are negative, ambiguous (the 1900 leap-year '
     'problem) or too large, and invalid dates, are refused with the '
     'documented errors.',
     ['inputs'], 'every day number and date in both systems',
     'Tests check about twenty dates.',
     [X + 'xldate.py'], [('xldate_as_tuple', X + 'xldate.py'),
                         ('xldate_from_date_tuple', X + 'xldate.py'),
                         ('xldate_as_datetime', X + 'xldate.py')])
prop('C20', 'Packed numbers and strings of xls records decode exactly',
     'Decoding a packed number gives the value the format defines for every '
     'bit pattern: a 30-bit signed integer or the upper 30 bits of a double, '
     'divided by 100 when flagged. Decoding a length-prefixed string gives '
     'exactly the characters stored (8-bit or 16-bit), and the position '
     'reported after it is just past its characters and its rich-text and '
     'phonetic data.',
     ['inputs'], 'every 4-byte pattern and every well-formed string record',
     'Tests decode a handful of values inside fixed files.',
     [X + 'sheet.py', X + 'biffh.py'],
     [('unpack_RK', X + 'sheet.py'),
      ('unpack_string, unpack_string_update_pos', X + 'biffh.py'),
      ('unpack_unicode, unpack_unicode_update_pos', X + 'biffh.py')])
prop('C21', 'Streams in compound files are their sectors in chain order',
     'A stream of an OLE2 compound file is the concatenation of the sectors '
     'of its chain, in chain order, cut to the size recorded for it, whether '
     'or not the sectors happen to be adjacent in the file. Bytes of sectors '
     'outside of the chain are never given, and a chain that leads outside '
     'of the file or loops raises an error. Locating a stream for reading a '
     'workbook also raises an error if its chain of standard sectors is '
     'shorter or longer than the recorded size or runs into a sector in use '
     'by another.',
     ['inputs'], 'every sector size, allocation table, chain and size',
     'Tests open a few files with mostly contiguous chains.',
     [X + 'compdoc.py'], [('_get_stream', X + 'compdoc.py'),
                          ('_locate_stream', X + 'compdoc.py')])
prop('C22', 'Automatic text reading is reading with the detected settings',
     'Reading text with automatic detection gives the pack that an explicit '
     'read of the same source gives with the settings detected from its first '
     'lines, where any setting given by the caller overrides the detected '
     'one; with a column selection only names of selected columns are kept. '
     'If nothing is detected and nothing is given, ValueError is raised.',
     ['inputs', 'configurations'],
     'every source, detection result and set of overriding arguments',
     'Tests read a few files with few overrides.',
     [TX], [('lazy_textpack', TX)])
prop('C23', 'Layout detection finds the data block of numeric text files',
     'For a text made of a header of free text followed by rows of numbers '
     'separated by one delimiter, with decimal point or comma, detection '
     'reports the delimiter, the number of header lines, the columns, and '
     'the names on a header line with one field per column.',
     ['inputs'], 'every header text and block of numbers',
     'Tests try five files.', [TX], [('preparse', TX)])
import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                       'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
