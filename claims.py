"""How each claimed property is decided (level, note, assumptions)."""

PY_SEM = [
    'CPython and PyPy execute the Python subset used by the functions under '
    'contract as pyvc models it',
    'strings are sequences of code points up to U+2FFFF (SMT-LIB strings); '
    'higher planes behave alike',
]

CLAIMS = {
    'C02': dict(
        level='proof',
        note='EncodingReader.__iter__ is proved, for streams of any length, '
             'to emit per line what the contract says. Decoding itself '
             '(bytes.decode) is a trusted library contract.',
        assumptions=PY_SEM + [
            'bytes.decode("utf-8") raises UnicodeDecodeError exactly for '
            'invalid UTF-8; bytes.decode("cp1252", "replace") is total'],
        bounded=['whole-file executions through the configuration parser'],
    ),
    'C03': dict(
        level='proof',
        note='NoCtrlReader.__iter__ is proved for streams of any length.',
        assumptions=PY_SEM,
        bounded=['whole-file executions through the configuration parser'],
    ),
    'C05': dict(
        level='proof',
        note='The three scanning functions are proved against recursive '
             'specifications with loop invariants, and the generator against '
             'their contracts, for all strings and stream lengths.',
        assumptions=PY_SEM,
        bounded=['whole-file executions through the configuration parser'],
    ),
}

CLAIMS['C01'] = dict(
    level='proof',
    note='BinFileReader.__iter__ is proved, iteration by iteration and for '
         'any stack of open files, to yield the next line of the file that '
         'was entered last with its name and number, or to close and leave '
         'it; BinFileReader.include to refuse a file that is being read and '
         'to enter any other. That reading ends is not proved.',
    assumptions=PY_SEM + [
        'os.path.realpath, enumerate, next and the opener are functions of '
        'their arguments and the state of the file',
        'what runs while a line is handed out changes the stacks only '
        'through include'],
    bounded=['whole files that include each other, through the '
             'configuration parser'])
CLAIMS['C04'] = dict(
    level='proof',
    note='FileformatReader.__iter__ is proved, line by line and for any '
         'stack of files, to take the format of a file from its first line, '
         'to report the lines that differ and to hand out the line without '
         'its ending; _pop_fileinfo to judge the last line of every file '
         'that is left, innermost first.',
    assumptions=PY_SEM,
    bounded=['whole files that include each other, through the '
             'configuration parser'])
CLAIMS['C06'] = dict(
    level='proof',
    note='ConfigParser.__iter__ is proved to classify every line, and the '
         'constructors of contexts and variables to report what they must. '
         'The three regular expressions of the parser are translated to '
         'SMT-LIB regular expressions (the translation is trusted).',
    assumptions=PY_SEM + [
        'the re module matches as its documentation says (greedy, leftmost)'],
    bounded=['whole-file executions through the configuration parser'])
CLAIMS['C07'] = dict(
    level='proof',
    note='ConfigParser.preprocessor is proved, for every line that starts '
         'with a "#" after blanks, to recognise the directive and to report '
         'what it must; reading the included file is one opaque step that '
         'succeeds or raises OSError or ValueError.',
    assumptions=PY_SEM + ['os.path.join and os.path.dirname are functions of '
                          'their arguments'],
    bounded=['whole-file executions through the configuration parser'])
CLAIMS['C08'] = dict(
    level='proof',
    note='Every function of configws.py is under contract: the grouping of '
         'blank lines into runs, what is reported of every run before a '
         'header, before a variable and at the end of a file (for any number '
         'of runs of any length), the counting of variables, the stack of '
         'files that are open, and the loop over all elements.',
    assumptions=PY_SEM + [
        'the generators between these functions are run to their end where '
        'they are called (the callers do that in the line of the call)'],
    bounded=['whole files that include each other, through the '
             'configuration parser'])
CLAIMS['C09'] = dict(
    level='proof',
    note='The loop of ConfigAggregator.__iter__ is proved to hand every '
         'element to its handler in order, and each handler to keep the '
         'contexts and variables as stated.',
    assumptions=PY_SEM,
    bounded=['whole-file executions through the configuration parser'])

_DIAL = PY_SEM + [
    'patterns and applications are opaque values with the interface the '
    'dialplan code uses (equality, matching and ordering of patterns; name, '
    'jump labels of applications); their own contracts are under C13-C22',
]
CLAIMS['C10'] = dict(
    level='proof',
    note='DialplanVarset.from_varset is proved for every variable line: '
         'exten with each form of priority, same, include, and everything '
         'else; "exten => ,1,X" (an empty extension) is excluded.',
    assumptions=_DIAL,
    bounded=['whole-dialplan executions'])
CLAIMS['C11'] = dict(
    level='proof',
    note='DialplanContext.add is proved to keep the class invariant of a '
         'context (order, labels, last extension) and to report exactly the '
         'stated problems, for contexts and extensions of any size.',
    assumptions=_DIAL,
    bounded=['whole-dialplan executions'])
CLAIMS['C12'] = dict(
    level='proof',
    note='Every handler of DialplanAggregator and the methods of Dialplan '
         'they call are proved against their contracts.',
    assumptions=_DIAL,
    bounded=['whole-dialplan executions'])
CLAIMS['C23'] = dict(
    level='proof',
    note='The recursion over includes (match_pattern) is proved by '
         'induction (partial correctness: that included contexts form no '
         'endless chain is what the seen-list is for, and is checked by '
         'execution); lookups of contexts, labels and the walk over all '
         'destinations likewise. The order of patterns '
         'is that of C15.',
    assumptions=_DIAL,
    bounded=['whole-dialplan executions'])
CLAIMS['C31'] = dict(
    level='proof',
    note='The text of "dialplan show" is proved per extension and per '
         'context, for dialplans of any size; the command is proved to '
         'print the dialplan of the file it is given and nothing else.',
    assumptions=_DIAL + ['left-justification to a width is a function of '
                         'text and width'],
    bounded=['whole-dialplan executions'])

CLAIMS['C14'] = dict(
    level='proof',
    note='parse, parse_pattern and parse_range_list are proved to give the '
         'values the specification gives, and matches_extension to follow '
         'them, for all texts. That the example extension matches is only '
         'checked by execution.',
    assumptions=PY_SEM + ['encoding to UTF-8 is a function of the text'],
    bounded=['the example of a pattern matches it'])
CLAIMS['C15'] = dict(
    level='proof',
    note='Equality, order and hash of patterns are proved to be those of '
         'their values, the values to be a function of the parsed meaning, '
         'and get_sorted_patterns to sort the current patterns whenever it '
         'is asked (its cache is dropped by every addition).',
    assumptions=PY_SEM + ['Python orders tuples of numbers and bytes '
                          'lexicographically (a total order)'],
    bounded=['the order of given patterns by the documented rule'])

_EMB = PY_SEM + [
    'a variable inside application data is one opaque letter: iterating, '
    'slicing, splitting, stripping and joining such data keeps it whole '
    '(that Var does so is C16)',
]
_BOUND_APP = ['whole applications, with all registered application classes, '
              'in whole dialplans']
CLAIMS['C18'] = dict(
    level='proof',
    note='separate_args is proved against a recursive specification with '
         'loop invariants, for data of any length, with embedded variables '
         'as opaque letters.',
    assumptions=_EMB,
    bounded=['data with real variable objects'])
CLAIMS['C19'] = dict(
    level='proof',
    note='check_balance is proved against a recursive specification with '
         'loop invariants, for data of any length.',
    assumptions=_EMB,
    bounded=['data with real variable objects'])
CLAIMS['C20'] = dict(
    level='proof',
    note='Registration, lookup and availability checks of applications and '
         'functions are proved for loaders of any content, and the '
         'splitting of "App(data)".',
    assumptions=_EMB + ['there is one loader of each kind (Singleton, C29)',
                        'modules register what they contain when imported'],
    bounded=_BOUND_APP)
CLAIMS['C21'] = dict(
    level='proof',
    note='The mixins that applications and functions are made of '
         '(argument counts, separators, options, conditions) are proved to '
         'report exactly the stated problems; the split into arguments is '
         'the function specified in C18.',
    assumptions=_EMB,
    bounded=_BOUND_APP)
CLAIMS['C22'] = dict(
    level='proof',
    note='The jump destinations of Goto, GotoIf, Gosub, GosubIf and ExecIf '
         'are proved to be what the specification says for all data, and '
         'DialplanAggregator/Dialplan to check each of them.',
    assumptions=_EMB + _DIAL[-1:],
    bounded=_BOUND_APP)

CLAIMS['C16'] = dict(
    level='proof',
    note='Bracket matching is proved against a fold over the letters, '
         'parse_variables to find every variable and expression and to give '
         'pieces that print as the text, the makers of variables, slices, '
         'functions and expressions to print as what they were made of, and '
         'joining, iterating, indexing, slicing and stripping to keep '
         'letters and order. Splitting is checked by execution.',
    assumptions=_EMB + [
        'texts within brackets are parsed as parse_variables specifies '
        '(induction on their length; termination of the recursion by that)',
        'numbers in slices print in their normal form, and what a rejected '
        'slice held is not printed',
        'int() and str() of integers are inverse'],
    bounded=['whole texts, all combinations of brackets up to a length',
             'Var.split, Var.format'])
CLAIMS['C17'] = dict(
    level='proof',
    note='split_variable_slice is proved to accept, keep and report exactly '
         'what the specification says for every text, with variables as '
         'opaque letters, count_var for every name, and '
         'process_read_function to pass on what follows a function call.',
    assumptions=_EMB + [
        'int() of up to 4300 decimal digits, optionally after a minus sign, '
        'is an integer with that sign'],
    bounded=['whole applications'])
CLAIMS['C24'] = dict(
    level='proof',
    note='The constructor of messages and the manager are proved to record '
         'and print each report as stated, and the creation of a message '
         'class to refuse a name that is taken and to mute what ALINT_IGNORE '
         'says; the two check commands to read what they are told to read, to '
         'check the jumps, and to return 1 exactly when a kind of message '
         'that is not ignored was recorded.',
    assumptions=PY_SEM + ['str.format of a message with all its fields '
                          'returns a text'],
    bounded=['the commands as processes, with ALINT_IGNORE'])
CLAIMS['C25'] = dict(
    level='proof',
    note='The constructor of messages has a precondition (a position, all '
         'fields that the text uses, the earlier occurrence of a '
         'duplicate); each call in the package is an obligation, decided on '
         'its syntax. That the earlier occurrence of a duplicate is the '
         'right one is part of the contracts of the functions that report '
         'duplicates (C11, C12, C26).',
    assumptions=PY_SEM + ['fields can be formatted (no __str__ or __repr__ '
                          'of a field fails)'],
    bounded=['whole files and dialplans'])
CLAIMS['C29'] = dict(
    level='proof',
    note='The metaclass of singletons, the version object and the list of '
         'modules of a version are proved against their contracts. Which '
         'modules lie in the directory of a version is the file system\'s '
         'answer.',
    assumptions=PY_SEM + ['os.listdir lists a directory'],
    bounded=['the applications and functions known per version'])
CLAIMS['C30'] = dict(
    level='proof',
    note='used_apps, used_funcs and used_modules of both loaders are proved '
         'to list what was used, sorted, once and without the placeholder; '
         'that every use goes through get() is part of C20. The commands are '
         'proved to print what these lists hold. The layout of the '
         'modules-show report is checked by execution, on random lists too.',
    assumptions=PY_SEM + ['the order in which a set is iterated is a '
                          'function of the set'],
    bounded=['the layout of the modules-show report'])

CLAIMS['C13'] = dict(
    level='exploration',
    technique='contracts on every function of the canonical form, '
              'discharged; that it means the same is checked by execution '
              '(bounded)',
    note='Parsing, the text of a set, of the other values and of the whole '
         'pattern, and whether a pattern is canonical are each proved '
         'against their specification, for all patterns. That this text '
         'parses to the same values again is not proved (it needs sets '
         'that are sorted, split into ranges, reordered and read back); it '
         'is checked by execution, within bounds.',
    assumptions=PY_SEM + [
        'sorting by a key is a function of key and list',
        'the sets of a pattern are not empty (as parse_range_list makes '
        'them)',
        'bytes(numbers) succeeds: the numbers are bytes'],
    bounded=['the meaning of the canonical text: all short sets, ranges and '
             'pairs at their borders, and random patterns'])

for _i in range(1, 33):
    CLAIMS.setdefault('C%02d' % _i, dict(
        level='exploration',
        technique='bounded check of the executable contract (stand-in for '
                  'the deductive proof, which is not complete here)',
        note='Bounded: the specification is executed next to the real code '
             'on generated inputs. Functions of this property under proved '
             'contracts, if any, are listed in the evidence.',
        assumptions=[],
        bounded=['generated inputs, compared with the specification, within '
                 'the time budget']))

NOT = {}
CLAIMS['C26'] = dict(
    level='proof',
    note='Every method of a func_odbc definition and of its aggregator is '
         'under contract, for any number of settings; that the place of a '
         'key tells the key is a lemma by induction. Only get_queries and '
         'the SQL helpers, which no check uses, are not.',
    assumptions=PY_SEM + [
        'the settings of a definition have known keys and no key twice '
        '(kept by OdbcFunction.add, its only way in)',
        'FuncLoader.register is C20'],
    bounded=['whole func_odbc files, and dialplans that use them'])

CLAIMS['C27'] = dict(
    level='proof',
    note='FileMutatorBase.process_file is proved, for any lines and issues, '
         'to replace the real file by the lines with every issue line '
         'rewritten by the change function (in the order of the issues) and '
         'all others as they were, and whenever making it fails to leave '
         'only the original.',
    assumptions=PY_SEM + [
        'reading, writing, renaming and the file status are what the os '
        'module documents (opaque functions of the names)',
        'the change function writes what belongs in place of the line'],
    bounded=['files of generated lines in a scratch directory, links and '
             'modes included'])

CLAIMS['C28'] = dict(
    level='proof',
    note='main is proved to take the first argument that is no option as the '
         'command, to load it, to pass all other arguments on and to return '
         'the status of the command, or to report an unknown or missing '
         'command and to fail; load_command to load the first file of that '
         'name on the path and to refuse names and modules that are no '
         'command; list_command_dirs to give every directory with commands. '
         'What list_commands prints is only searched, not proved.',
    assumptions=PY_SEM + [
        'importlib and argparse do what their documentation says; the file '
        'system is a function of the paths'],
    bounded=['the real script with generated commands in scratch '
             'directories, the list of commands included'])
