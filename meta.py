"""The properties, and how each is decided.  tools/gen.py turns this into
properties.jsonl, plan.json and MANIFEST.json."""

A = 'asterisklint/'


def P(pid, title, statement, over, text, why, files, mech, observe, **kw):
    return dict(
        id=pid, title=title, statement=statement,
        quantifier={'over': over, 'text': text}, why_tests_cant=why,
        anchors={'files': [A + f for f in files],
                 'mechanism': [{'name': n, 'where': A + w} for n, w in mech],
                 'observe_at': observe, 'hook_needed': None},
        **kw)


FILES = ['file.py', 'config.py']

PROPS = [
    P('C01', 'Includes keep order and provenance',
      'Reading a configuration file processes each of its lines exactly once '
      'and in order, and an #include is replaced in place by the lines of the '
      'included file (its name taken relative to the directory of the '
      'including file), to any depth. Everything read or reported carries the '
      'name of the file it came from, its 1-based line number there and the '
      'raw line. A file that is still being read is never entered again, and '
      'every opened file is closed when its end is reached.',
      ['inputs', 'configurations'],
      'all sets of files, all include graphs (including cyclic and repeated '
      'ones), all line contents',
      'The tests include one or two fixed files; order and provenance must '
      'hold for every include graph and every position of the directive.',
      FILES + ['where.py'],
      [('file/generator stack', 'file.py:BinFileReader'),
       ('include path', 'config.py:ConfigParser.preprocessor')],
      ['contexts and variables from a configuration parser', 'messages']),
    P('C02', 'Any byte sequence is decoded, and bad UTF-8 is reported',
      'A line that is valid UTF-8 is decoded as UTF-8 and nothing is reported '
      'about its encoding. Any other line is reported exactly once as not '
      'being UTF-8, at its own position, and is then read as Windows-1252 '
      'with undefined bytes replaced. No sequence of bytes makes reading '
      'fail.',
      ['inputs'], 'all byte strings as lines, in any number',
      'Tests try one latin-1 sample; the claim ranges over all byte strings.',
      ['file.py'], [('decoding', 'file.py:EncodingReader.__iter__')],
      ['values read', 'encoding messages']),
    P('C03', 'Control characters are reported once per line',
      'A line that contains at least one control character below U+0020 other '
      'than tab, carriage return and line feed gives exactly one '
      'control-character warning at that line; any other line gives none. '
      'The text itself is passed on unchanged.',
      ['inputs'], 'all lines, any number and position of control characters',
      'Tests place one control character in one line.',
      ['file.py'], [('character check', 'file.py:NoCtrlReader.__iter__')],
      ['control-character warnings', 'values read']),
    P('C04', 'Line endings are judged per file against its first line',
      'The first line of each file decides whether the file is in DOS format '
      '(the line ends in CRLF, or has no line feed at all) or in UNIX format. '
      'Every later line with the other ending is reported once (a bare LF in '
      'a DOS file, a CRLF in a UNIX file), and at the end of the file a DOS '
      'file whose last line ends in a line feed, or a UNIX file whose last '
      'line does not, is reported once at its last line. The judgement of a '
      'file is independent of the files that include it or that it includes, '
      'and the ending is removed from the text.',
      ['inputs', 'histories'],
      'all sequences of line endings, all include nestings',
      'Tests hold five small files; the state machine must be right for every '
      'sequence of lines and every interleaving of files.',
      ['file.py'], [('per-file state', 'file.py:FileformatReader')],
      ['line-ending warnings', 'values read']),
    P('C05', 'Comments and escaped semicolons are split exactly',
      'The text of a line ends at its first semicolon that is not directly '
      'preceded by a backslash; backslash-semicolon stands for a literal '
      'semicolon and every other character is kept as it is, except blanks '
      'at the end of the text. Trailing blanks on a line, and a comment that '
      'directly touches preceding text, are each reported exactly once; '
      'nothing else is.',
      ['inputs'], 'all lines, any nesting of backslashes and semicolons',
      'Tests hold a dozen literal lines; the two scanning loops must be right '
      'for all strings.',
      ['file.py'],
      [('comment split', 'file.py:AsteriskCommentReader')],
      ['variable values and comment flags', 'whitespace warnings']),
    P('C06', 'Every line is classified as exactly one construct',
      'Each logical line is exactly one of: a context header (optionally with '
      'a template list), an object or variable assignment split at its first '
      'equals sign (an arrow when ">" follows it), a blank line, a "#" '
      'directive, or a bad line that is reported with its first 16 '
      'characters. Names and values come out without the whitespace around '
      'the operator; an arrow not written as " => ", an equals sign with '
      'whitespace around it, and unexpected leading whitespace (allowed '
      'before "same") are each reported once. A template list is reported '
      'as unsupported but the context is still read.',
      ['inputs'], 'all lines of text',
      'Five regular expressions decide this; the tests give them some thirty '
      'lines.',
      ['config.py', 'configobj.py'],
      [('classification', 'config.py:ConfigParser.regexes'),
       ('separator checks', 'configobj.py:Varset.__init__'),
       ('header checks', 'configobj.py:Context.__init__')],
      ['contexts and variables', 'messages']),
    P('C07', 'Preprocessor directives are recognised and checked',
      'A line that starts with #include, #tryinclude or #exec, then '
      'whitespace or control characters, then an argument, is that directive; '
      'any other line starting with "#" is a bad line. An argument enclosed '
      'in double quotes or angle brackets is unquoted, unbalanced quoting and '
      'a mixed or unusual separator are each reported once, and #exec is '
      'reported and never run. A file that cannot be read is reported for '
      '#include and silently skipped for #tryinclude, and reading goes on.',
      ['inputs', 'configurations'],
      'all directive lines; present, missing, unreadable and repeated files',
      'Tests cover a handful of spellings; the rules range over all '
      'separators, quotings and names.',
      ['config.py'],
      [('directives', 'config.py:ConfigParser.preprocessor')],
      ['files read', 'directive messages']),
    P('C08', 'Vertical whitespace is judged per file',
      'In each file, blank lines at its start and at the end of the input are '
      'reported once; a context header that follows a context with more than '
      'two variables must be preceded by at least one blank or comment line, '
      'and no run of blank lines may exceed two before a header or one before '
      'a variable (comment lines split runs). Each breach is reported exactly '
      'once, and nothing is reported otherwise. Included files are judged on '
      'their own and do not disturb the judgement of the including file.',
      ['inputs', 'histories'],
      'all sequences of headers, variables, blank and comment lines over all '
      'include nestings',
      'The tests check a few layouts; the property is about all sequences.',
      ['configws.py'],
      [('per-file state', 'configws.py:VswContext'),
       ('include stack', 'configws.py:VswContextStack')],
      ['vertical-whitespace messages']),
    P('C09', 'Variables belong to the most recent context, in order',
      'A generic configuration yields its contexts in the order of their '
      'headers, each holding exactly the variables that were read after its '
      'header and before the next one, in order and without merging or '
      'dropping duplicates. A variable before the first context is reported '
      'once and belongs nowhere. Includes do not start or end a context.',
      ['inputs', 'histories'], 'all sequences of headers and variables',
      'Tests use configurations of two contexts.',
      ['config.py', 'configobj.py'],
      [('aggregation', 'config.py:ConfigAggregator')],
      ['contexts and variables', 'messages']),
    P('C10', 'Dialplan lines are parsed into pattern, priority, label, app',
      'In a dialplan context, "exten" splits at its first comma into pattern '
      'and the rest, "same" has no pattern, and the rest splits at its first '
      'comma into priority (a decimal number or "n", optionally followed by a '
      'label in parentheses) and application; "include" adds an include. A '
      'missing or invalid priority, an unterminated label, a badly formed '
      'pattern, a hint/switch/ignorepat, and any other name are each reported '
      'once with the offending text and add nothing. An equals sign in place '
      'of the arrow is a hint only.',
      ['inputs'], 'all variable lines in dialplan contexts',
      'Tests parse well-formed lines and a few errors.',
      ['dialplan.py'],
      [('line parser', 'dialplan.py:DialplanVarset.from_varset')],
      ['extensions of the parsed dialplan', 'messages']),
    P('C11', 'Priorities and labels are numbered and checked consistently',
      'The priority "n" becomes the previous accepted priority in the file '
      'plus one, and "same" takes the pattern of the previous extension of '
      'the context; without a predecessor the line is reported and dropped. '
      'Within a context, a second extension with the same canonical pattern '
      'and priority is reported against the first and dropped, a second label '
      'for the same canonical pattern is reported and removed, and a numbered '
      'priority that does not follow its predecessor is reported but kept. '
      'Hence no two kept extensions of a context share pattern and priority, '
      'and all kept priorities are at least one.',
      ['inputs', 'histories'],
      'all sequences of extension lines across contexts',
      'Tests cover single steps; the invariants range over whole files.',
      ['dialplan.py'],
      [('adding an extension', 'dialplan.py:DialplanContext.add')],
      ['extensions of the parsed dialplan', 'messages']),
    P('C12', 'Dialplan contexts are merged, general and globals kept apart',
      'All parts of a dialplan context with the same name form one context, '
      'in order of first appearance, holding the extensions and includes of '
      'all parts in order. [general] and [globals] never become dialplan '
      'contexts: repeated [general] sections are merged (with a duplicate '
      'report) with the last one receiving later variables, and a repeated '
      '[globals] is reported and ignored. A misplaced [general] or '
      '[globals], or, when there are contexts, a missing one, gives a hint, '
      'once each.',
      ['inputs', 'histories'], 'all sequences of context headers',
      'Tests reopen one context once.',
      ['dialplan.py'],
      [('context dispatch', 'dialplan.py:DialplanAggregator'),
       ('general/globals', 'dialplan.py:Dialplan')],
      ['contexts, general and globals of the dialplan', 'messages']),
    P('C13', 'Canonical patterns mean the same as what was written',
      'For every valid pattern the canonical form matches exactly the same '
      'extensions as the pattern as written, and two patterns of the same '
      'kind that accept the same sequence of character sets have the same '
      'canonical form. Dashes outside sets are ignored, X, Z and N are the '
      'digits 0-9, 1-9 and 2-9 in either case, a set holds its characters '
      'and ranges (reversed ranges included), and an empty or unterminated '
      'set makes the pattern invalid. A pattern is reported as non-canonical '
      'exactly when it differs from its canonical form by more than dashes.',
      ['inputs'], 'all pattern strings, including non-ASCII ones',
      'Tests list fifty patterns; ranges, gaps and escapes combine without '
      'bound.',
      ['pattern.py'],
      [('parser', 'pattern.py:Pattern.parse_pattern'),
       ('sets', 'pattern.py:Pattern.parse_range_list'),
       ('canonical form', 'pattern.py:Pattern.canonical_pattern')],
      ['canonical pattern', 'validity', 'non-canonical hints']),
    P('C14', 'Extension matching follows the pattern language',
      'A plain extension matches only itself (dashes ignored). A pattern '
      'matches an extension exactly when each character is in the '
      'corresponding set and the lengths agree, where "." stands for one or '
      'more and "!" for zero or more arbitrary remaining characters. The '
      'example extension derived from a pattern always matches that pattern.',
      ['inputs'], 'all pairs of pattern and extension',
      'Tests try some forty pairs.',
      ['pattern.py'],
      [('matching', 'pattern.py:Pattern.matches_extension'),
       ('example', 'pattern.py:Pattern.example')],
      ['match result', 'example extension']),
    P('C15', 'Pattern order, equality and hash are consistent',
      'Equality, order and hash of patterns form a total order with equal '
      'patterns hashing alike, depend only on the parsed meaning (dashes, '
      'case of X/Z/N and the spelling of sets do not matter), and sort plain '
      'extensions before patterns, then position by position by size of the '
      'set and its first character, with "." after any set and "!" after '
      '".". The patterns of a context are always tried in that order.',
      ['inputs'], 'all pairs and triples of patterns',
      'Totality, transitivity and hash consistency quantify over all triples.',
      ['pattern.py', 'dialplan.py'],
      [('comparison', 'pattern.py:Pattern.__lt__'),
       ('values', 'pattern.py:Pattern.parse'),
       ('sorted patterns', 'dialplan.py:DialplanContext.get_sorted_patterns')],
      ['sorted patterns', 'comparison results']),
    P('C16', 'Parsed variables and expressions print back to the source',
      'Parsing text with ${...} variables, functions and $[...] expressions '
      'gives a structure that prints back to exactly the text it was parsed '
      'from (numbers in slices may be normalised), for any nesting. Bracket '
      'matching counts nested brackets of the same kind, a "$" that starts '
      'neither is literal, and an unterminated bracket is reported as a parse '
      'error. Joining, slicing, splitting and iterating over such a '
      'structure never lose, duplicate or reorder parts.',
      ['inputs'], 'all strings, any nesting depth',
      'Tests hold twenty expressions; the grammar is recursive.',
      ['varfun.py', 'variable.py', 'expression.py', 'function.py'],
      [('parser', 'varfun.py:VarLoader.parse_variables'),
       ('bracket matching', 'varfun.py:VarLoader._find_brackets_end'),
       ('structure', 'variable.py:Var')],
      ['printed structure', 'iteration and slices', 'parse errors']),
    P('C17', 'Variable slices and names are validated',
      'In ${name:offset[:length]} the offset and length must be decimal '
      'integers (optionally negative) or contain variables; a malformed '
      'offset or length, a zero length, a negative offset with a length '
      'reaching its end or beyond, a zero offset without a length, and a '
      'wrong number of parts are each reported exactly once, and valid '
      'slices are not reported and keep their values. A variable name that '
      'is plain text may hold only ASCII letters, digits and underscore; '
      'anything else is reported. The same slice rules hold after a function '
      'call, and other text there is reported.',
      ['inputs'], 'all variable references',
      'Tests try a dozen slices; sign, size and dynamic parts combine.',
      ['varfun.py', 'variable.py'],
      [('slices', 'varfun.py:VarLoader.split_variable_slice'),
       ('names', 'varfun.py:VarLoader.count_var')],
      ['slice values', 'messages']),
    P('C18', 'Arguments are separated as Asterisk does',
      'Application arguments are split exactly at delimiters that are outside '
      'brackets, parentheses and double quotes and that are not escaped by a '
      'backslash; unmatched closing brackets do not count. The number of '
      'arguments is one more than the number of such delimiters, and apart '
      'from removed quotes and backslashes (where requested) every character '
      'and embedded variable is kept, in order. Embedded variables never '
      'contain delimiters.',
      ['inputs'], 'all argument texts, with any embedded variables',
      'Tests hold about ten argument strings.',
      ['app/base.py', 'variable.py'],
      [('splitter', 'app/base.py:AppBase.separate_args')],
      ['separated arguments', 'argument-count messages']),
    P('C19', 'Unbalanced quotes and brackets are reported',
      'Application or function data is reported as unbalanced exactly when '
      'its parentheses, brackets and braces, outside single or double quotes, '
      'are not properly nested and closed, or a quote is left open. Quotes of '
      'one kind inside quotes of the other kind are literal and embedded '
      'variables are ignored.',
      ['inputs'], 'all data strings with embedded variables',
      'Dyck-language membership cannot be settled by samples.',
      ['variable.py', 'app/base.py', 'func/base.py'],
      [('balance check', 'variable.py:variable_check_balance')],
      ['balance warnings']),
    P('C20', 'Application and function names are looked up reliably',
      'A known application or function (other than the placeholder name '
      'Unknown) written in its proper case gives no '
      'naming report, one in another case gives one report naming the proper '
      'case and is still checked as that application, and any other name '
      'gives one missing report. Text after the name must be in parentheses '
      '(only NoOp may go without); blanks around a name and an empty name '
      'are reported. Every extension records exactly the name that was '
      'looked up, and looking up unknown names never affects later lookups.',
      ['inputs', 'histories'],
      'all names, in any order and number of lookups',
      'Tests look up a few names; lookups share global state.',
      ['application.py', 'varfun.py', 'app/base.py'],
      [('application text', 'application.py:App.split_app_data'),
       ('lookup', 'application.py:AppLoader.get'),
       ('function lookup', 'varfun.py:FuncLoader.get')],
      ['messages', 'applications and functions used']),
    P('C21', 'Argument counts and options are enforced',
      'For every application with declared arguments, fewer than the minimum '
      'or more than the maximum number of arguments is reported exactly once '
      'and any number in between is not. Unknown option letters and repeated '
      'option letters in an option argument are reported, a lone argument '
      'containing a pipe is reported as an old delimiter, and nothing else '
      'is. Conditional applications require condition?true[:false], report a '
      'constant or empty condition, and report old comma style.',
      ['inputs', 'programs'],
      'all applications and all argument lists',
      'Tests call a few applications; the rule ranges over all of them.',
      ['app/base.py', 'app/vall'],
      [('counts', 'app/base.py:MinMaxArgsMixin.split_args'),
       ('options', 'app/base.py:AppOptions.validate'),
       ('conditions', 'app/base.py:IfStyleApp.split_args')],
      ['messages']),
    P('C22', 'Jumps are extracted with context, extension and priority',
      'Goto, GotoIf, Gosub and GosubIf, also when wrapped in ExecIf, '
      'record one destination per branch that is present: one '
      'argument is a priority or label, two are extension and priority, '
      'three are context, extension and priority. Missing parts are taken '
      'from the calling context and an example of the calling pattern, '
      'decimal priorities are numbers and everything else a label, and too '
      'many arguments of Goto, Gosub and GosubIf are reported. No jump is '
      'lost or invented.',
      ['inputs', 'programs'], 'all jump applications and their arguments',
      'Tests cover a few forms of Goto.',
      ['app/vall/builtin.py', 'app/vall/app_stack.py',
       'app/vall/app_exec.py', 'dialplan.py'],
      [('goto', 'app/vall/builtin.py'), ('gosub', 'app/vall/app_stack.py'),
       ('exec', 'app/vall/app_exec.py'),
       ('completion', 'dialplan.py:DialplanContext.add')],
      ['jump destinations', 'messages']),
    P('C23', 'Every jump destination is resolved like Asterisk would',
      'For each static jump, a missing context is reported as such; otherwise '
      'the patterns of the context that match the extension are tried in '
      'sort order, then the included contexts depth first, and, for numeric '
      'priorities, extension i priority 1; nothing found is reported once, '
      'and a destination that exists is not reported. Jumps with a variable '
      'context or extension are only checked for the existence of the label, '
      'in the whole dialplan or in the context. Circular includes terminate.',
      ['inputs', 'configurations'],
      'all dialplans, include graphs and destinations',
      'Tests hold one dialplan with some jumps.',
      ['dialplan.py'],
      [('walk', 'dialplan.py:Dialplan.walk_jump_destinations'),
       ('lookup', 'dialplan.py:DialplanContext.match_pattern')],
      ['goto messages']),
    P('C24', 'Messages are recorded, muted and counted reliably',
      'Every report is recorded with its position and printed exactly once '
      'as "file:line NAME: text", unless it is muted globally or through '
      'ALINT_IGNORE, which mutes exactly the names listed and, for entries '
      'ending in an underscore, the names with that prefix; muted messages '
      'are still recorded. The check commands exit with a failure status '
      'exactly when a message that is not ignored was reported. Message names '
      'are unique.',
      ['inputs', 'configurations', 'histories'],
      'all sets of messages and all ALINT_IGNORE values',
      'Tests never set ALINT_IGNORE nor look at exit statuses.',
      ['defines.py', 'main.py', 'mainutil.py', 'commands'],
      [('recording', 'defines.py:MessageDefManager.on_message'),
       ('muting', 'defines.py:MessageDefManager.__new__')],
      ['standard error', 'exit status', 'recorded messages']),
    P('C25', 'Every report can be formatted where it is raised',
      'Every place that raises a message supplies a position and all fields '
      'that the text of that message uses, and duplicates always refer to '
      'the earlier occurrence. So reporting never fails, whatever the input.',
      ['programs', 'inputs'],
      'all call sites that raise messages, on every path that reaches them',
      'Tests reach a part of the call sites, with a part of the messages.',
      ['defines.py', 'config.py', 'dialplan.py', 'varfun.py',
       'application.py', 'func_odbc.py', 'app', 'func'],
      [('formatting', 'defines.py:MessageDefManager.on_message')],
      ['messages']),
    P('C26', 'func_odbc definitions are checked and turned into functions',
      'Each context of a func_odbc configuration with a read or write '
      'statement defines one function, named by its prefix (ODBC unless a '
      'non-empty one is given), an underscore and the context name, and only '
      'then do dialplans know that function; a context without one is '
      'reported. An unknown key or a repeated key is reported (the latter '
      'against the first, which wins) and dropped, and a key that comes later '
      'than its place in the fixed order is reported and kept. Legacy keys, '
      'trailing semicolons, arrows and badly formed names are each reported '
      'once at their line, and nothing else is.',
      ['inputs'], 'all func_odbc configurations',
      'Tests hold a few sample definitions.',
      ['func_odbc.py'], [('aggregation', 'func_odbc.py')],
      ['function definitions', 'messages']),
    P('C27', 'File mutation changes only the reported lines',
      'Rewriting a file for a set of reported issues changes exactly the '
      'lines with an issue, each by the change function given, and keeps all '
      'other bytes, including line endings, as they were. The result '
      'replaces the file in one step and keeps its mode, a symbolic link '
      'keeps pointing to the changed file, and when producing the new contents '
      'fails the original stays intact and no temporary file is left. When '
      'it asks, anything but the answer y changes nothing.',
      ['inputs', 'fault_sequences'],
      'all files and sets of issues; failure at any step',
      'Tests do not run the mutator.',
      ['helper/mutator.py'], [('mutator', 'helper/mutator.py')],
      ['file contents, mode and links after the call']),
    P('C28', 'Commands are found, loaded and dispatched by name',
      'The command line finds every command that is present and only those, '
      'lists them, passes the remaining arguments unchanged and returns the '
      "command's status as exit status. An unknown command, or none, is "
      'reported with a usage error and a failure status, without a traceback.',
      ['inputs', 'configurations'],
      'all command names and argument lists',
      'Tests do not run the entry point.',
      ['main.py', 'mainutil.py'], [('loader', 'main.py')],
      ['exit status', 'output']),
    P('C29', 'One version is pinned and decides what is loaded',
      'The applications and functions that are known are exactly those of '
      'the selected Asterisk version, loaded once and shared by all users. '
      'A version selected before first use is in force for everything after, '
      'without a selection the default version is, and selecting another '
      'version later is refused.',
      ['configurations', 'histories'],
      'all versions and orders of first use',
      'Tests run with the default version.',
      ['version.py', 'cls.py', 'application.py', 'varfun.py'],
      [('version', 'version.py'), ('singleton', 'cls.py')],
      ['known applications and functions']),
    P('C30', 'The modules report lists exactly what a dialplan uses',
      'The list of applications, functions and modules used consists of '
      'exactly those that occur in the dialplan, including applications '
      'nested in others and functions nested in variables, each once and '
      'sorted, without the placeholder for unknown ones.',
      ['inputs'], 'all dialplans',
      'Tests do not run the command.',
      ['commands/modules-show.py', 'application.py', 'varfun.py'],
      [('usage', 'application.py:AppLoader.used_modules'),
       ('function usage', 'varfun.py:FuncLoader.used_modules')],
      ['output of the modules report']),
    P('C31', 'Dialplan listings show every extension once, in order',
      'The dialplan listing has one section per context, in the requested '
      'order, holding each kept extension exactly once, grouped by pattern in '
      'sort order and by position within a pattern, with its priority and '
      'application (and its label, except on the first line of a pattern), '
      'followed by the includes in order.',
      ['inputs'], 'all dialplans',
      'Tests compare a single listing.',
      ['dialplan.py', 'commands/dialplan-show.py'],
      [('listing', 'dialplan.py:Dialplan.format_as_dialplan_show')],
      ['listing text']),
    P('C32', 'Checking never crashes and always terminates',
      'For every input file, of whatever content, parsing and checking '
      'configurations, dialplans and func_odbc files ends in finite time '
      'without an exception; every problem of the input is reported as a '
      'message instead.',
      ['inputs'], 'all byte strings as files, all include graphs',
      'Tests feed mostly valid files.',
      ['file.py', 'config.py', 'dialplan.py', 'varfun.py', 'application.py',
       'func_odbc.py', 'app', 'func'],
      [('error wrapper', 'config.py:ConfigAggregator.__iter__')],
      ['normal return']),
]

BY_ID = {p['id']: p for p in PROPS}
