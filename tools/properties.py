"""Writes /verif/properties.jsonl (python3 tools/properties.py)"""
import json
import os

G = 'openquake/commonlib/general.py'
PAR = 'openquake/commonlib/parallel.py'
INI = 'openquake/commonlib/readini.py'
VAL = 'openquake/commonlib/valid.py'
REC = 'openquake/commonlib/record.py'
RECS = 'openquake/commonlib/records.py'
CSV = 'openquake/commonlib/csvmanager.py'
CONV = 'openquake/commonlib/converter.py'
LT = 'openquake/commonlib/logictree.py'
SRC = 'openquake/commonlib/source.py'
RISK = 'openquake/commonlib/riskloaders.py'
SCRIPT = 'bin/NRMLconvert.py'

P = []


def prop(pid, title, statement, over, text, why, mechanisms, observe=(),
         state=()):
    files = []
    for _name, where in mechanisms:
        f = where.split(':')[0]
        if f not in files:
            files.append(f)
    anchors = dict(files=files, mechanism=[
        dict(name=n, where=w) for n, w in mechanisms], hook_needed=None)
    if observe:
        anchors['observe_at'] = list(observe)
    if state:
        anchors['state'] = [dict(name=n, meaning=m, where=w)
                            for n, m, w in state]
    P.append(dict(id=pid, title=title, statement=statement,
                  quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=anchors))


prop('C01', 'Splitting a weighted stream in blocks loses and overloads nothing',
     'Grouping a stream of weighted items in blocks keeps every item of '
     'nonzero weight exactly once and in order, and ignores the items of zero '
     'weight as if they were not there. A block contains items of a single '
     'kind, knows its total weight, never exceeds the limit unless it '
     'consists of one oversized item, and is closed only when the next item '
     'does not fit or is of another kind. Negative weights and limits which '
     'are not positive are rejected with a value error.',
     ['inputs'], 'all finite streams (lists, tuples, one-shot iterators) of '
     'items with integer or float weights and hashable kinds, all limits',
     'the tests split two short sequences; the guarantee is over all '
     'combinations of weights, kinds and limits, including zero weights and '
     'falsy or repeated items',
     [('block splitter', G + ':block_splitter')])

prop('C02', 'A weighted sequence always weighs the sum of what was added',
     'Through any history of constructions, appends, insertions, extensions '
     'and sums, the weight of a weighted sequence is the sum of the weights '
     'of the items put in it, and its items are those items in the right '
     'order. Summing or merging sequences leaves the operands untouched and '
     'shares no state with them. Two sequences are equal if and only if they '
     'contain equal items in the same order, and they are ordered by weight.',
     ['histories'], 'all histories of additions over several sequences',
     'the tests sum a couple of sequences; aliasing and weight drift depend '
     'on the history',
     [('weighted sequence', G + ':WeightedSequence')],
     state=[('weight', 'sum of the weights of the items added',
             G + ':WeightedSequence')])

prop('C03', 'Splitting in about N blocks respects the hint',
     'Splitting a sequence with a hint on the number of blocks keeps every '
     'item of nonzero weight exactly once and in order, in blocks of a '
     'single kind which do not weigh more than the total weight divided by '
     'the hint, rounded up, unless they hold a single oversized item. With a '
     'single kind the blocks are less than twice the hint, and no more than '
     'the hint if the items have all the same unit weight. A hint which is '
     'not positive is an error.',
     ['inputs'], 'all sequences and iterators with nonzero total weight, all hints, '
     'weights and kinds',
     'the tests use two fixed sequences; the bound must hold for each '
     'combination of weights and hints',
     [('split in blocks', G + ':split_in_blocks'), ('ceil', G + ':ceil')])

prop('C04', 'The deep comparison of objects is an exact equality on contents',
     'Comparing in depth two objects finds them equal if and only if they '
     'have the same structure and the same contents at any depth, apart from '
     'the values of the attributes and keys excluded by the caller and from '
     'the differences between numbers which are below the given number of '
     'decimals (lists and tuples with equal items are the same). When '
     'they are different it says so with an explanation which is not empty. '
     'The comparison never raises an error because of the difference.',
     ['inputs'], 'all pairs of nested values made of numbers, strings, None, '
     'lists, tuples, dictionaries, plain objects, objects with slots (own or '
     'inherited, set or not) and iterators',
     'the tests compare a handful of pairs; a missed difference hides in a '
     'position or a type which was not sampled',
     [('deep comparison', G + ':deep_eq'),
      ('comparison of objects by kind', G + ':_deep_eq')])

prop('C05', 'Small helpers: distinct keys, ceiling, booleans, temporary files',
     'The distinct keys of a stream are its keys, each once, in the order of '
     'first appearance; the ceiling of a quotient, computed as a floating '
     'point number, is the smallest integer not '
     'below it, for positive divisors, and other divisors are refused. The '
     'texts true, yes, t and 1, in any case, are true and all the other ones '
     'are false. A temporary file is created new at each call with exactly '
     'the given content, readable as soon as the call returns.',
     ['inputs'], 'all streams of hashable keys, numbers, texts and contents',
     'the tests cover one or two values of each helper',
     [('distinct', G + ':distinct'), ('ceil', G + ':ceil'),
      ('boolean texts', G + ':str2bool'), ('temporary files', G + ':writetmp')])

prop('C06', 'Each task is executed once and each result aggregated once',
     'Submitting a sequence of tasks, in parallel or sequentially, executes '
     'each task exactly once with its own arguments and passes each result '
     'exactly once to the aggregation function, together with the accumulator '
     'returned by the previous aggregation, whatever the order in which the '
     'tasks complete and whatever the results are. The final value is the '
     'last accumulator; without tasks it is the initial one. When the '
     'parallelization is disabled the tasks run in order in the calling '
     'process.',
     ['schedules', 'inputs'], 'all completion orders of the tasks, all '
     'results (None, falsy values, pairs, exception instances), any number '
     'of tasks',
     'the tests run one small computation on a real pool; an order or a '
     'result which loses a task is not sampled',
     [('task manager', PAR + ':TaskManager'),
      ('sequential execution', PAR + ':no_distribute'),
      ('aggregation', PAR + ':TaskManager.aggregate_result_set')],
     observe=['execution of the tasks', 'calls of the aggregation function'])

prop('C07', 'The failure of a task is reported with its traceback, never lost',
     'When a task fails with any kind of exception, in whatever position and '
     'completion order, the aggregation stops with a runtime error carrying '
     'the type, the message and the traceback of the failed task, and no '
     'result of a failed task ever reaches the aggregation function, while '
     'the tasks aggregated before it are aggregated once. Exceptions '
     'returned as ordinary results are not failures, and an error of the '
     'aggregation function comes out as it is.',
     ['schedules', 'fault_sequences'], 'all subsets of failing tasks, all exception types, all completion '
     'orders and execution modes',
     'the tests do not make tasks fail in different positions and orders',
     [('guarded call', PAR + ':safely_call'),
      ('detection of the failures', PAR + ':TaskManager.aggregate_results'),
      ('aggregation', PAR + ':TaskManager.aggregate_result_set')],
     observe=['outcome of the aggregation'])

prop('C08', 'Progress reports grow and say 100% only when all is done',
     'During an aggregation the reported percentages strictly increase, never '
     'exceed the fraction of tasks really aggregated, and 100% is reported '
     'exactly once, after the last of the tasks; nothing reports 100% when '
     'the aggregation fails before the end. The number of tasks submitted is '
     'reported truthfully.',
     ['schedules', 'inputs'], 'any number of tasks, any completion order, any '
     'position of a failure',
     'the tests look at one number of tasks; rounding problems depend on the '
     'number',
     [('progress log', PAR + ':log_percent_gen'),
      ('task manager', PAR + ':TaskManager')],
     observe=['progress function'])

prop('C09', 'Manual pickling gives back equal and independent objects',
     'A pickled object unpickles to a value equal to the original, as it was '
     'when it was pickled, each time it is asked. Pickling a sequence gives a '
     'sequence of the same length and order where each object was pickled '
     'once even if repeated, the objects already pickled are kept as they '
     'are, and the size reported is the number of bytes really produced; this '
     'holds also for iterators of objects which exist only while they are '
     'pickled.',
     ['inputs', 'histories'], 'all picklable nested values, and sequences and '
     'iterators with repetitions of the same objects',
     'the tests do not pickle sequences with repeated or pickled objects',
     [('pickled object', PAR + ':Pickled'),
      ('pickling of sequences', PAR + ':pickle_sequence')])

prop('C10', 'Performance monitors measure the right block and process',
     'A performance monitor reports, for each block it monitors, the memory '
     'of each process measured at the end minus the memory of the same '
     'process at the start, in the order of the processes and leaving out '
     'those which cannot be read or are finished, the time when that block '
     'started and its duration, not that of other blocks. The report is made once per block; '
     'the errors raised in the block are recorded and come out unchanged. A '
     'warning with the percentage is logged if and only if the memory in use '
     'is over the given percentage, also while tasks are submitted and their '
     'results collected.',
     ['histories', 'fault_sequences'], 'all sets of processes with changing memory, processes which become '
     'unreadable at any moment, any reuse of the monitor',
     'the tests monitor the current process only, where nothing fails',
     [('performance monitor', PAR + ':PerformanceMonitor'),
      ('memory warning', PAR + ':check_mem_usage')])

prop('C11', 'All the parameters of a job file are read, with absolute paths',
     'Reading a job configuration file gives every parameter of every section '
     'with exactly the text in the file; the parameters naming files are '
     'collected apart under the name without the suffix, as absolute paths '
     'resolved against the directory of the job file when they are relative '
     'and left alone when they are absolute. The result does not depend on '
     'the working directory, on the way the path of the job file is spelled '
     'or on the reading of other files before.',
     ['inputs', 'histories'], 'all well formed job files, paths and working '
     'directories',
     'the tests read a couple of literal configurations',
     [('parsing of job files', INI + ':parse_config')])

prop('C12', 'The files linked from a job are found, all and only them',
     'Reading a job with a source model logic tree collects the paths of all '
     'the source models in the tree, at any level and from no other kind of '
     'uncertainty, each once, stripped of the white space and relative to '
     'the directory of the job. The sites read from a CSV file are all the '
     'pairs of coordinates in the file, in order and with the digits they '
     'have there, and a row which is not a pair is a value error instead of '
     'a dropped site.',
     ['inputs'], 'all source model logic trees and all files of sites',
     'the tests use one tree and one file',
     [('linked source models', INI + ':parse_config'),
      ('source models in a logic tree', INI + ':_collect_source_model_paths'),
      ('reading of sites', INI + ':_parse_sites_csv')])

prop('C13', 'Numeric validators accept exactly the numbers in their domain',
     'Each validator of numbers (integers and floats not below zero, '
     'probabilities, longitudes, latitudes, ranges between two limits) '
     'converts each text which denotes a number in its domain, limits '
     'included, to exactly that number and rejects with a value error each '
     'other text: texts which are not numbers, not-a-numbers, infinities '
     'outside of the limits and the values just beyond a limit.',
     ['inputs'], 'all texts; the domains are intervals, so infinitely many values and '
     'notations (+infinity is left unspecified where there is no upper '
     'limit)',
     'the tests sample a few values for each validator',
     [('positive numbers', VAL + ':positivefloat'),
      ('positive integers', VAL + ':positiveint'),
      ('coordinates', VAL + ':longitude'),
      ('ranges', VAL + ':FloatRange')])

prop('C14', 'Validators of names and words accept exactly the valid words',
     'A name (letters, digits and underscores, not starting with a digit), a '
     'list of names, a choice among given words, a category, a text which is '
     'not empty and a boolean (0, 1, true or false) are accepted if and only '
     'if the whole text has that form, and rejected with a value error '
     'otherwise; an optional value is also accepted when empty and is then '
     'None. Intensity measure types are accepted if and only if they are '
     'PGA, PGV, PGD, IA, RSD, MMI or SA with a period in parentheses, and '
     'give the type, the period and the damping of 5%.',
     ['inputs'], 'all texts, where the period of SA is written in plain decimal notation',
     'the tests try a few good and bad words; anchoring mistakes accept '
     'infinitely many texts',
     [('choice', VAL + ':Choice'), ('words', VAL + ':Regex'),
      ('lists of names', VAL + ':namelist'),
      ('booleans', VAL + ':boolean'), ('optional values', VAL + ':NoneOr'),
      ('intensity measure types', VAL + ':IMTstr')])

prop('C15', 'A record is valid if and only if all its fields are',
     'A record casts each of its fields with the rule of its column, fills '
     'the missing ones with the declared defaults, and it is valid if and '
     'only if each field and each check declared for the record is: '
     'otherwise the errors name exactly the wrong columns with their values. '
     'An assignment to a field is accepted if and only if the value is valid '
     'there and changes that field only. A record is equal exactly to the '
     'records and sequences with the same length and the same values in the '
     'same order, and different from anything else; the conversion to a tuple and to a node loses nothing. '
     'Record types without a primary key or with fields having reserved '
     'names are refused.',
     ['inputs'], 'all the record types shipped and randomly declared ones, all rows of '
     'texts',
     'the tests check two record types with a few rows',
     [('records', REC + ':Record'), ('fields', REC + ':Field'),
      ('declaration of the types', REC + ':MetaRecord'),
      ('record types', RECS + ':Location')])

prop('C16', 'Tables keep their unique keys through any history of changes',
     'Through any history of insertions, replacements, deletions and '
     'reversals a table contains exactly the records put in it, in order, '
     'and never two records with the same unique key: the change which would '
     'introduce a duplicate is refused with an error and leaves the table, '
     'keys included, as it was. The keys of the records removed can be used '
     'again, and searching by a unique key finds the record having it, if '
     'there is one.',
     ['histories'], 'all histories of operations, failed ones included, on '
     'tables with one or more unique constraints',
     'the tests perform fixed short histories',
     [('tables', REC + ':Table'), ('unique constraints', REC + ':Unique')],
     state=[('unique index', 'maps the key values to the records in the '
             'table', REC + ':UniqueData')])

prop('C17', 'A set of tables keeps its keys and references consistent',
     'Inserting a record in a set of related tables succeeds if and only if '
     'the records it refers to are there and its unique keys are new: '
     'otherwise it fails with a foreign key error naming the missing '
     'reference or with a key error, and nothing changes. Inserting many '
     'records stops at the first one which is wrong and keeps the ones '
     'before it. A deletion removes exactly the given record, whose keys can '
     'be used again, and different sets of tables share nothing.',
     ['histories'], 'all histories of insertions and deletions over related tables',
     'the tests insert and remove a few records of a single model',
     [('set of tables', REC + ':TableSet'),
      ('references', REC + ':ForeignKey'),
      ('check of the references', REC + ':TableSet.check_fk')])

prop('C18', 'An archive gives back what was written under each name',
     'An archive in memory, in a directory or in a zip file gives back under '
     'each name exactly the last content written there, each time it is read '
     'and to each of its readers, lists the names with a given prefix, knows '
     'which names it contains, and refuses to read the missing ones. What '
     'was written survives closing and opening the archive again, whether '
     'its files were closed one by one, by the end of a block or by closing '
     'the archive, which leaves no file open and no temporary file. Opening '
     'for reading an archive which does not exist is an error.',
     ['histories'], 'all histories of writes, overwrites, reads and reopenings on the three '
     'kinds of archive (writers not interleaved, text without exotic '
     'characters)',
     'the tests write one or two files and read them once',
     [('archives', CSV + ':mkarchive'), ('zip', CSV + ':ZipArchive'),
      ('directory', CSV + ':DirArchive'), ('memory', CSV + ':MemArchive'),
      ('closing', CSV + ':Archive')])

RT = ('converted to records and CSV files and back, in memory, in a directory '
      'or in a zip file, contains the same information as the original')
prop('C19', 'Vulnerability and fragility models survive the trip through CSV',
     'A NRML vulnerability or fragility model (discrete or continuous) '
     + RT + ': the same sets, functions, limit states, levels and numbers, '
     'in the same order. The CSV files are the tabular form of the model: one '
     'row per set, function, limit state and level, with the texts of the '
     'document unchanged.',
     ['inputs'], 'all valid vulnerability and fragility models, any number '
     'of sets, functions and limit states, optional attributes present or '
     'not',
     'the tests convert one example of each model',
     [('conversion to records', CONV + ':Converter.from_node'),
      ('vulnerability', CONV + ':Vulnerability'),
      ('fragility', CONV + ':FragilityDiscrete'),
      ('records', RECS + ':DiscreteVulnerability')])

prop('C20', 'Exposure models survive the trip through CSV',
     'A NRML exposure of population or of buildings ' + RT + ': all the '
     'assets in order with their costs, deductibles, limits, retrofitting '
     'values and occupancies, the cost types and conversions, whatever '
     'assets have or lack the optional parts. The CSV files have one row per '
     'asset, location, cost and occupancy, with the texts of the document '
     'unchanged.',
     ['inputs'], 'all valid exposure models with declared cost types, any '
     'combination of optional parts',
     'the tests convert two examples',
     [('exposure of buildings', CONV + ':Exposure'),
      ('exposure of population', CONV + ':Exposure'),
      ('records', RECS + ':Asset')])

prop('C21', 'Ground motion fields survive the trip through CSV',
     'A NRML collection of ground motion fields, stochastic event based or '
     'scenario, ' + RT + ': the same fields grouped in the same sets, with '
     'their intensity measure types, damping, periods, ruptures and nodes '
     'in the same order. The records extracted are valid records, with one '
     'row per set, field and node.',
     ['inputs'], 'all valid collections with at least one node per field',
     'the tests convert two examples',
     [('event based fields', CONV + ':GmfCollection'),
      ('documents of fields', CONV + ':GmfCollection.to_node'),
      ('records', RECS + ':GmfData')])

prop('C22', 'The validation of CSV files finds all and only the wrong cells',
     'Validating the CSV files of an archive reports each row containing '
     'wrong values, with the name of its file, its row number, exactly the '
     'wrong columns and a message, and reports nothing else; files which are '
     'correct or unrelated do not disturb it. The number of reports can be '
     'limited, and then only the first ones are given.',
     ['inputs'], 'all sets of wrong cells in any file and position, in the '
     'three kinds of archive',
     'the tests have one wrong file',
     [('search of the invalid rows', CSV + ':CSVManager.find_invalid'),
      ('search in a sequence', REC + ':find_invalid'),
      ('validation', REC + ':Record')])

prop('C23', 'CSV files are read faithfully and the mistakes are detected',
     'Records written to CSV files are read back equal, with any text in '
     'their cells, every time they are read and in any kind of archive; the '
     'columns missing at the end of a row have their default values, '
     'optional files may be missing, and the groups of files are recognized '
     'from their names. A missing or wrong header, a row with too many '
     'columns, a duplicated key, a dangling reference, an archive without '
     'files with the given prefix and one with files of several models are each reported with an '
     'error instead of being accepted or skipped.',
     ['inputs'], 'all records (with separators, quotes, newlines and UTF8-encoded '
     'characters) and all the single mistakes in the files',
     'the tests read well formed files and two wrong ones',
     [('CSV manager', CSV + ':CSVManager'),
      ('reading', CSV + ':CSVManager.read'),
      ('set of tables', REC + ':TableSet')])

prop('C24', 'The conversion script gives equivalent files, end to end',
     'Run on a NRML file with an output directory or zip archive, the script '
     'writes there the CSV files of the model; run on a directory or a zip '
     'archive of CSV files it writes the NRML document in the output '
     'archive, or in the input one if there is no output: converting forward '
     'and back gives an equivalent document. The input files are never '
     'modified, nor the other files in an existing output directory or in '
     'the output archive of a document, and the name of what was created is '
     'printed. If some records '
     'are invalid they are printed, up to the given limit, the '
     'script ends with their number and no document is written; a NRML input '
     'without an output ends with an explanation.',
     ['inputs', 'configurations'], 'all kinds of models and all combinations of kind of input and of '
     'output',
     'the script has no test',
     [('script', SCRIPT + ':main'), ('conversions', CONV + ':Converter'),
      ('CSV manager', CSV + ':CSVManager.convert_to_nrml')])

prop('C25', 'All the paths of a source model logic tree, with exact weights',
     'Enumerating in full a source model logic tree yields every path from '
     'the root to a leaf exactly once, in the order of the document, each '
     'with its source model, its sequence of branches, its position and the '
     'product of the weights of its branches. The weights of all the paths '
     'sum exactly to one, also when only some branches of a level are '
     'refined by the next one and the others end there. The document may be '
     'a file, a byte string or a unicode string, in whatever encoding it '
     'declares.',
     ['inputs'], 'all valid source model logic trees, of any depth and '
     'shape, read from a file, from a string or from their job file',
     'the tests enumerate a few literal trees',
     [('realizations', LT + ':SourceModelLogicTree'),
      ('enumeration of the paths', LT + ':BranchSet.enumerate_paths'),
      ('application of the branchsets',
       LT + ':SourceModelLogicTree.apply_branchset')])

prop('C26', 'Sampling draws each branch with the probability of its weight',
     'Drawing a random number in [0, 1) selects the object whose interval of '
     'cumulative weights contains it, so that objects of zero weight are '
     'never drawn (but, possibly, for a number equal to their limits), the '
     'last one is reachable, and weights not summing to one are an error '
     'when the number is in the missing part. Sampling a logic tree '
     'yields the requested number of realizations, each being a path of the '
     'tree chosen level by level according to the weights, with its source '
     'model and without an own weight. The same seed gives the same sample, '
     'whatever happens elsewhere to the random numbers, and different paths '
     'are drawn with the frequencies given by their weights.',
     ['inputs', 'schedules'], 'all weights summing to one, all the random streams and seeds, all '
     'logic trees',
     'the tests draw from one stream with a fixed seed',
     [('sampling', LT + ':sample'), ('one draw', LT + ':sample_one'),
      ('sampling of the paths', LT + ':BaseLogicTree.sample_path'),
      ('realizations', LT + ':BaseLogicTree.__iter__')])

prop('C27', 'Uncertainties are applied to the intended sources and only to them',
     'For each path of a source model logic tree the uncertainties on the '
     'path are applied, in the order of the path, to the sources selected by '
     'all the filters of their branchset (identifier, kind of source, '
     'tectonic region type) and to no other source. Only the parameters '
     'named by the uncertainty change (maximum magnitude, a and b values, '
     'absolute or relative), only in truncated Gutenberg-Richter '
     'distributions, and nothing else in the source changes. Unknown kinds '
     'of filters, of sources and of uncertainties are errors.',
     ['inputs'], 'all trees, all paths and all sources of the five kinds',
     'the tests use mock sources with a single filter at a time',
     [('filters', LT + ':BranchSet.filter_source'),
      ('uncertainties', LT + ':BranchSet.apply_uncertainty'),
      ('path', LT + ':SourceModelLogicTree.make_apply_uncertainties')])

prop('C28', 'Mistakes in a source model logic tree are reported where they are',
     'A source model logic tree with a mistake (duplicated identifiers, '
     'weights which do not sum to one, unknown or misplaced kinds of '
     'uncertainty, more than one filter, filters which match no source, '
     'absolute uncertainties not bound to a single source, wrong values, '
     'references to branches which are missing, not in the previous level or '
     'already used, more than one root branchset) is rejected with a '
     'validation error naming the file, its base path and the line of the '
     'mistake. A tree or a source model which is missing, not readable as '
     'XML or against the schema is rejected with a parsing error naming it. '
     'Trees without mistakes are accepted.',
     ['inputs'], 'all valid trees damaged by one mistake in any position',
     'the tests have one literal document per mistake',
     [('parsing of the tree', LT + ':BaseLogicTree.parse_tree'),
      ('branchsets', LT + ':SourceModelLogicTree.validate_branchset'),
      ('references', LT + ':SourceModelLogicTree.apply_branchset'),
      ('values', LT + ':SourceModelLogicTree.validate_uncertainty_value'),
      ('filters', LT + ':SourceModelLogicTree.validate_filters')])

prop('C29', 'A GMPE logic tree gives one model per tectonic region, exactly',
     'A GMPE logic tree read for a set of relevant tectonic region types '
     'enumerates all the combinations of one ground shaking model per '
     'relevant region, each once and in the order of the document, with the '
     'product of the weights, and associates to each region the model of its '
     'own branch; the samples are among them. Levels about other regions '
     'change nothing. A relevant region described twice or not at all, more '
     'branchsets in a level, wrong filters or weights, a repeated branch or '
     'a model which does not exist are rejected with a validation error '
     'naming file and line.',
     ['inputs'], 'all GMPE logic trees and all nonempty sets of relevant tectonic region '
     'types',
     'the tests use a few literal trees with all regions relevant',
     [('GMPE logic tree', LT + ':GMPELogicTree'),
      ('models by region', LT + ':GMPELogicTree.make_trt_to_gsim'),
      ('skipped levels', LT + ':BaseLogicTree.parse_branchinglevel')])

prop('C30', 'The GSIM logic tree combines the branches of each region',
     'A GSIM logic tree file gives, for the requested tectonic region types, '
     'all the combinations of one branch per region, each once, ordered by '
     'identifier of the branchset whatever the order of the request and of '
     'the document, with the product of the weights, the identifiers of the '
     'branches and the right model for each region; the weights of all the '
     'combinations sum to one. The numbers of paths and of branches and the '
     'models by region are those of the requested regions only. Files with '
     'weights which do not sum to one, misplaced kinds of uncertainty, more '
     'branchsets in a level, a region described twice or no requested '
     'region, and requests with repeated types, are rejected.',
     ['inputs'], 'all GSIM logic tree files with branchsets in any order, all the sets '
     'of tectonic region types',
     'the tests read three literal files',
     [('GSIM logic tree', LT + ':GsimLogicTree'),
      ('reading of the branches', LT + ':GsimLogicTree._parse_lt'),
      ('combinations', LT + ':GsimLogicTree.__iter__')])

prop('C31', 'NRML sources and ruptures are converted faithfully',
     'Converting a NRML source (point, area, simple fault, complex fault, '
     'characteristic with any kind of surface) or rupture gives a hazard '
     'object of the corresponding kind whose attributes are those of the '
     'source and of the parameters of the conversion: edges from top to '
     'bottom, all the planes and depths with their probabilities, '
     'distributions with all their rates. The source converted is not '
     'modified and can be converted again with the same result; an error '
     'keeps its type and names the identifier and the name of the source.',
     ['inputs', 'histories'], 'all sources and ruptures, all parameters, any '
     'sequence of conversions with the same converter',
     'the tests convert one literal source of each kind, once',
     [('converter', SRC + ':NrmlHazardlibConverter')])

prop('C32', 'Splitting an area source in points conserves the seismicity',
     'Splitting an area source gives one point source for each point of the '
     'mesh of its polygon, in order, with consecutive identifiers and names '
     'derived from those of the area, and with all the other properties of '
     'the area. For each magnitude the occurrence rates of the points are '
     'equal and sum to the rate of the area, for any kind of magnitude '
     'distribution; the area source is not modified.',
     ['inputs', 'histories'], 'all area sources, discretization steps and '
     'distributions, also modified by uncertainties; interleaved splits',
     'the tests split one area with each distribution',
     [('splitting', SRC + ':area_to_point_sources')])

prop('C33', 'Splitting a fault source conserves the seismicity',
     'Splitting a simple or complex fault source gives one source of the same '
     'kind for each magnitude with a nonzero occurrence rate, with that '
     'magnitude and that rate only, with consecutive identifiers starting '
     'from zero and with all the other properties unchanged. The original '
     'source is not modified, and the sources which are neither faults nor '
     'areas come out whole.',
     ['inputs', 'histories'], 'all fault sources with any distribution, '
     'including bins with a zero rate',
     'the tests split a fault without empty bins',
     [('splitting', SRC + ':split_fault_source'),
      ('dispatch', SRC + ':split_source')])

prop('C34', 'A source model is grouped by tectonic region without losses',
     'Parsing a source model gives one group per tectonic region type, '
     'ordered by number of sources and then by name, containing all the '
     'sources of that region in the order of the document and the minimum '
     'and maximum magnitudes among them. The function applying the '
     'uncertainties sees each source exactly once before the magnitudes are '
     'computed; two sources with the same identifier are rejected, and a '
     'source is never put in a group of another region.',
     ['inputs'], 'all source models, any number and kind of sources',
     'the tests parse one document with seven sources',
     [('parsing', SRC + ':parse_source_model'),
      ('groups', SRC + ':SourceCollector')])

prop('C35', 'Filtered and split sources end up in the blocks exactly once',
     'Dividing a group of n sources in blocks yields, in order and exactly '
     'once, the pieces of the sources accepted by the filter which produce '
     'ruptures, in blocks which do not weigh more ruptures than the given '
     'weight times n / (n + 100), unless they hold a single oversized piece, '
     'and which are closed only when the next piece does not fit. At the end '
     'the ruptures of the accepted pieces have been added to the count of '
     'the group, its sources are the accepted pieces, and the numbers of '
     'accepted pieces and of those plus the discarded sources are right. '
     'Filtering a group gives a new group with the accepted sources and '
     'leaves the old one untouched.',
     ['inputs', 'histories'], 'all groups of sources, filters, limits and discretization steps',
     'the tests do not divide groups in blocks',
     [('groups', SRC + ':SourceCollector'),
      ('blocks', SRC + ':SourceCollector.gen_blocks'),
      ('block splitter', G + ':block_splitter')])

prop('C36', 'Vulnerability functions are loaded by taxonomy and loss type',
     'Loading the vulnerability files of a job gives a risk model for each '
     'taxonomy defined in the files of the requested loss types, with the '
     'function of the right file for each loss type, its numbers, intensity '
     'measure type and distribution unchanged; fatalities come from the file '
     'about the occupants and the retrofitted functions from the retrofitted '
     'files. The same taxonomy twice in a file and an invalid function are '
     'rejected with an error naming the taxonomy, and loss types without a '
     'file are skipped.',
     ['inputs', 'configurations'], 'all files and all combinations of loss '
     'types, insured losses and retrofitted flags',
     'the tests check two error messages only',
     [('loader', RISK + ':get_risk_models'),
      ('functions by loss type', RISK + ':get_taxonomy_vfs'),
      ('functions of a file', RISK + ':_get_vulnerability_functions')])

prop('C37', 'Fragility functions are loaded by taxonomy and limit state',
     'Loading a fragility model gives the state of no damage followed by the '
     'limit states in the order of the document, and a risk model for each '
     'taxonomy with its intensity measure type and one function per limit '
     'state in the same order, with the numbers of the document. For '
     'discrete functions with a limit of no damage that level is prepended '
     'with a zero probability, otherwise the limit is the first level.',
     ['inputs'], 'all discrete and continuous fragility models with distinct '
     'taxonomies',
     'no test loads fragility models',
     [('loader', RISK + ':get_damage_states_and_risk_models')])

prop('C38', 'Independent objects do not interfere, also in concurrent threads',
     'What the library does with a configuration file, a document, an '
     'archive, a table or a set of tables, a record, a logic tree, a source '
     'model, a converter, a sequence or a set of tasks does not depend on '
     'what was done before with other objects or is being done with other '
     'objects by other threads at the same time: results, errors and '
     'written files are the same as when it is used alone. (Performance '
     'monitors are declared not thread-safe.)',
     ['schedules', 'histories'], 'all sets of independent uses, all the ways '
     'of running them one after the other or concurrently',
     'each test uses one object at a time, in one thread',
     [('records', REC + ':MetaRecord'), ('tables', REC + ':TableSet'),
      ('CSV manager', CSV + ':CSVManager'), ('archives', CSV + ':Archive'),
      ('conversions', CONV + ':Converter'),
      ('logic trees', LT + ':BaseLogicTree'),
      ('sources', SRC + ':NrmlHazardlibConverter'),
      ('loaders', RISK + ':get_risk_models'),
      ('configuration', INI + ':parse_config'),
      ('task managers', PAR + ':TaskManager'),
      ('blocks', G + ':block_splitter')])

prop('C39', 'Malformed risk, exposure and ground motion models are rejected',
     'Converting a model, from a document or from CSV files in any kind of '
     'archive, fails with an error, instead of losing, inventing or '
     'misassigning data, if its lists of levels and of numbers have different '
     'lengths, if the function of a limit state is missing, additional, '
     'misnamed or in a different order than the limit states, if the '
     'functions of a set have different levels or numbers which the risk '
     'library refuses, if functions, assets, costs, occupancies, fields or '
     'sites are repeated, if a function, a set or a field has no data while '
     'others have, if the rows of a field are not together, if a cost has an '
     'unknown type, if a field has a damping which is not 5%, or if more than one record describes the whole model. '
     'A failed conversion does not create or change documents.',
     ['inputs'], 'all vulnerability, fragility, exposure and ground motion '
     'field models and all the single mistakes of these kinds',
     'the tests convert well formed models only',
     [('vulnerability', CONV + ':Vulnerability'),
      ('discrete fragility', CONV + ':FragilityDiscrete'),
      ('continuous fragility', CONV + ':FragilityContinuous'),
      ('exposures', CONV + ':Exposure'),
      ('ground motion fields', CONV + ':GmfCollection')])

if __name__ == '__main__':
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                        '..', 'properties.jsonl')
    with open(path, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
