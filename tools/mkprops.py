"""Writes properties.jsonl (kept in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in (state or [])],
                          'observe_at': observe or [], 'hook_needed': hook}})

PAR, COM, TPL = 'Cheetah/Parser.py', 'Cheetah/Compiler.py', 'Cheetah/Template.py'

p('C01', 'Literal text reaches the output verbatim',
  'Text of a template definition that is not part of a placeholder, directive, comment or PSP tag appears in the output character for character and in source order, whatever characters it contains (quotes, backslashes, any line ending, control or non-ASCII characters, lone token characters). A backslash-escaped placeholder or directive start appears as that literal text without the backslash, and a raw block appears exactly as written.',
  ['inputs', 'programs'], 'for every template source: every literal run, at any position relative to tags, in any mixture of characters and line endings',
  'The tests render a few dozen hand-picked literals; the re-encoding of text into generated Python string literals and the tag scanner must be right for every character sequence.',
  [PAR, COM, 'Cheetah/SourceReader.py'],
  [('scanner of literal text and unescaping', PAR + ': eatPlainText, _unescapeCheetahVars, _unescapeDirectives, eatRaw'),
   ('emission of string constants into generated code', COM + ': commitStrConst, addStrConst')],
  ['rendered output of a compiled template'])

p('C02', 'Placeholders resolve names by the documented search order and dotting rules',
  'A placeholder or dotted name takes its first component from the first place that has it, in the order: local variables, global variables set by the template, the template instance, the namespaces of the search list in the order given, module globals, builtins (with the option to put the search list before the instance). Each further component is looked up as a mapping key and otherwise as an attribute; functions and methods reached without an argument list are called exactly once, classes and other instances are not; arguments and subscripts apply as in Python, and a missing component raises a not-found error naming it.',
  ['inputs', 'programs', 'configurations'], 'for every assignment of values of any kind to the scopes and every chain of names, calls and subscripts, with and without the autocall, stack-frame and search-order options',
  'The tests fix one small object graph; shadowing between all pairs of scopes, key/attribute precedence, call counts and failures at each position are combinatorial.',
  ['Cheetah/NameMapper.py', 'Cheetah/c/_namemapper.c', COM, TPL],
  [('name lookup', 'Cheetah/NameMapper.py and Cheetah/c/_namemapper.c: valueFromFrameOrSearchList, valueFromSearchList, valueForName'),
   ('code generation for names', COM + ': genNameMapperVar, genPlainVar'),
   ('search list construction', TPL + ': _initCheetahInstance')],
  ['rendered output, log of lookups and calls recorded by probe objects in the scopes'])

p('C03', 'The native and the pure-Python name lookup agree',
  'For every namespace structure and every dotted name, the compiled lookup functions and their pure-Python counterparts return the same object, make the same calls in the same order, or raise the same kind of error with the same message. A template therefore renders the same whether or not the extension is installed.',
  ['inputs', 'programs'], 'for every namespace built from mappings, instances, classes, modules, functions, methods and sequences, every dotted name of up to a dozen components and both settings of autocalling',
  'The test-suite runs each flavour against its own fixed expectations; it never compares the two on the same input.',
  ['Cheetah/NameMapper.py', 'Cheetah/c/_namemapper.c', 'Cheetah/c/_namemapper.h'],
  [('native lookup', 'Cheetah/c/_namemapper.c'), ('fallback lookup', 'Cheetah/NameMapper.py, except branch at the end of the module')],
  ['return values, exceptions and probe-object call logs of both flavours'])

p('C04', 'The native name lookup is memory-safe and leaks nothing',
  'No sequence of lookups, however long or malformed the name and however hostile the objects (raising, mutating or vanishing during the lookup), makes the extension read or write out of bounds, use freed memory, crash, or lose or over-release a reference. Every lookup that fails does so with a Python exception and leaves the interpreter usable.',
  ['inputs', 'histories', 'schedules', 'fault_sequences'], 'for every name string, namespace behaviour, failing step of a lookup and thread interleaving',
  'Unit tests check return values; they do not observe reference counts, heap state or undefined behaviour, and use only well-behaved objects.',
  ['Cheetah/c/_namemapper.c', 'Cheetah/c/_namemapper.h'],
  [('name splitting into a bounded chunk array', 'getNameChunks'), ('reference ownership along a dotted chain', 'PyNamemapper_valueForName'), ('exception wrapping', 'wrapInternalNotFoundException')],
  ['AddressSanitizer / UBSan reports, reference-count and allocation deltas, process exit status'])

p('C05', 'Flow-control and assignment directives behave as the Python statements do',
  'Conditionals (all spellings, one-line and ternary forms), loops, repeat, while, unless, break, continue, pass, try/except/else/finally, set, del, assert, raise, silent, echo, return, stop and embedded Python execute exactly the statements Python would for the same expressions, in the same order and the same number of times. What a rendering outputs is the concatenation of what the executed parts output.',
  ['programs', 'inputs'], 'for every nesting of directives, every expression over the documented expression syntax and every data value',
  'Tests exercise one directive at a time at nesting depth one or two; nesting, expression parsing across token boundaries and evaluation order are unbounded.',
  [PAR, COM],
  [('directive parsing', PAR + ': eatIf, eatSimpleIndentingDirective, eatSimpleExprDirective, eatSet, getExpressionParts'),
   ('code generation and indentation', COM + ': addIf, addFor, addElse, addTernaryExpr, addSet, addStop')],
  ['rendered output and evaluation trace recorded by probes, against an independent interpreter'])

p('C06', 'Directives and comments leave exactly the documented whitespace',
  'A directive or comment that stands alone on its line contributes nothing to the output, neither its indentation nor its line ending; a directive tag closed inline or sharing its line with text removes only itself; the slurp forms remove exactly one line ending; an end-of-line comment keeps the line ending when text precedes it. A one-line form outputs the text of its own line after at most one blank, and nothing of the lines around it changes. This holds for every line-ending style, indentation and position, including the first line, the last line and the end of the source.',
  ['inputs', 'programs'], 'for every placement of every directive and comment form relative to text, whitespace, line endings and the ends of the source',
  'Tests pin particular layouts per directive; the product of directive, position, indentation, line ending and neighbour is not sampled.',
  [PAR, COM, 'Cheetah/SourceReader.py'],
  [('whitespace gobbling', PAR + ': _eatRestOfDirectiveTag, _eatToThisEndDirective, eatComment, eatMultiLineComment, eatSlurp'),
   ('truncation of pending text', COM + ': handleWSBeforeDirective')],
  ['rendered output'])

p('C07', 'Every top-level value passes the active output filter exactly once',
  'Each placeholder or echo value is passed exactly once, with its filter arguments and raw expression, to the filter in force at that point (instance filter, or the innermost open filter region, also in methods called from it), None yields nothing, literal text is never filtered, and on leaving a filter region by any path the enclosing filter is back in force. The supplied filters keep their contracts: the web-safe one lets no HTML-sensitive or additionally listed character through, the length filter never exceeds its limit, the stripping ones remove only the whitespace they document, and Unicode and byte values come out as text.',
  ['inputs', 'programs', 'histories'], 'for every value, nesting of filter regions, method call and early exit',
  'Tests check a few strings per filter and one level of filter regions with normal exits.',
  [COM, 'Cheetah/Filters.py', TPL],
  [('filtered write', COM + ': addFilteredChunk, setFilter, closeFilterBlock'), ('filters', 'Cheetah/Filters.py')],
  ['call log of recording filters, rendered output'])

p('C08', 'Captured, called and nested output is conserved: once, in order, in place',
  'Output produced inside a call, capture, def, block, closure or nested template body reaches its documented destination exactly once and in order: the argument of the called method, the captured variable, the return value, or the surrounding output, and nothing leaks between them whatever the nesting. The same text results whether the template renders to a string or writes to a caller-supplied transaction, and an abandoned region (exception, break, return) does not divert later output.',
  ['programs', 'histories'], 'for every nesting of buffering constructs, exit path and rendering destination',
  'Tests cover each buffering directive alone and mostly through str(); redirection state has to be restored on every exit path of every nesting.',
  [COM, TPL, 'Cheetah/DummyTransaction.py', PAR],
  [('output redirection', COM + ': startCallRegion/endCallRegion, startCaptureRegion/endCaptureRegion, _addAutoSetupCode'), ('response buffers', 'Cheetah/DummyTransaction.py')],
  ['rendered output, transaction write log, arguments received by called functions'],
  [('_CHEETAH__isBuffering', 'output of nested methods is collected instead of going to the transaction', 'template instance')])

p('C09', 'Cached regions and placeholders refresh exactly when due',
  'A cached region or placeholder is evaluated on its first rendering and then only when its interval has elapsed, its test is true, or it was explicitly refreshed; every other rendering outputs the text of the last evaluation for the same vary-by value and evaluates nothing inside. Regions, vary-by values and template instances never see one another\'s cached text, and a failed evaluation or a store that lost its data leads to re-evaluation rather than to wrong or missing output.',
  ['histories', 'inputs', 'fault_sequences'], 'for every sequence of renderings, clock advances, variable changes, refreshes, store evictions and failing evaluations',
  'Tests render a cached region once or twice without advancing the clock.',
  [COM, 'Cheetah/CacheRegion.py', 'Cheetah/CacheStore.py', TPL],
  [('region code', COM + ': startCacheRegion, endCacheRegion, genTimeInterval, genCacheInfoFromArgList'), ('cache items', 'Cheetah/CacheRegion.py'), ('explicit refresh', TPL + ': refreshCache, getCacheRegion')],
  ['rendered output and evaluation count of probes under a virtual clock'],
  [('cache items and expiry', 'what is stored and until when', 'Cheetah/CacheRegion.py: CacheItem')])

p('C10', 'Cache stores keep the set/add/replace/get/delete protocol',
  'After any history of operations a store returns for each key the last value accepted for it and raises KeyError when there is none or it has expired; set always stores, add stores only absent keys, replace only present ones, refusals are errors that change nothing, and delete removes exactly one key or raises KeyError. Concurrent users never observe a value that was never stored under that key.',
  ['histories', 'inputs', 'schedules'], 'for every sequence of operations, keys, values, expiry times and clock advances',
  'No existing test calls the store directly.',
  ['Cheetah/CacheStore.py', 'Cheetah/CacheRegion.py'],
  [('memory store', 'Cheetah/CacheStore.py: MemoryCacheStore'), ('memcached wrapper', 'Cheetah/CacheStore.py: MemcachedCacheStore')],
  ['return values and exceptions against a reference store'])

p('C11', 'Compilation caching is invisible except in speed',
  'Compiling a template definition yields a class (or module source) equivalent to compiling it afresh, whatever was compiled before in the process: two requests share a cached class only if source or file content, class, module and main-method names, base class, compiler class, settings and module globals are all equal. Requests that forbid caching, changed files and custom preprocessors are always honoured, and class names, module names and defaults requested come out as requested.',
  ['histories', 'inputs', 'configurations'], 'for every history of compilations with any combination of arguments',
  'Tests compile a handful of sources; key collisions and stale hits appear only across particular pairs of requests.',
  [TPL],
  [('cache key and lookup', TPL + ': Template.compile, _compile, _getCompilerSettings, hashDict')],
  ['rendering, name, module, bases and identity of the returned classes'],
  [('compile cache', 'class per key', 'Template._CHEETAH_compileCache')])

p('C12', 'Concurrent compiling and rendering equals doing it sequentially',
  'Any number of threads compiling templates, creating instances and rendering separate instances at the same time obtain exactly the results a single thread obtains, without deadlock, exception, or class, module or text belonging to another thread\'s template. Equal concurrent cached requests are answered with interchangeable classes.',
  ['schedules'], 'for every interleaving of threads in compile, instantiate, render, include and cache operations on distinct instances',
  'The tests are single-threaded apart from nothing at all.',
  [TPL, COM, 'Cheetah/NameMapper.py', 'Cheetah/ImportHooks.py'],
  [('compile lock and unique module names', TPL + ': compile'), ('per-instance state', TPL + ': _initCheetahInstance')],
  ['per-thread outputs and exceptions under injected scheduling'])

p('C13', 'Rendering leaves no residue',
  'Rendering the same template again with the same data gives the same output, however often and in whatever order instances are rendered, and also after renderings that ended in an exception, early stop or abandoned region. Rendering or compiling never modifies caller-supplied namespaces, lists, settings dictionaries or sources, and instances of a class share no mutable rendering state.',
  ['histories', 'programs'], 'for every template, history of successful and failing renderings of its instances and set of caller-supplied objects',
  'Tests render once per instance and never reuse an instance after an exception.',
  [TPL, COM, 'Cheetah/SettingsManager.py', PAR],
  [('per-instance initialisation', TPL + ': _initCheetahInstance, __init__'), ('region state restored', COM + ': setFilter, startCallRegion'), ('settings copies', 'Cheetah/SettingsManager.py, ' + TPL + ': _getCompilerSettings')],
  ['outputs along histories, deep snapshots of caller-supplied objects'])

p('C14', 'Template inheritance overrides methods and blocks as Python classes do',
  'Methods, blocks, attributes and the main method of a template class follow Python inheritance: a redefinition in the most derived template or class is what every caller, including inherited code, gets; super reaches the next definition with the given arguments; a definition not overridden is inherited unchanged. With block markers switched on, every block, wherever it is rendered from, stands between the markers of the template that defines it. Any chain of templates and Python classes, compiled dynamically or from generated modules, renders as the equivalent chain of Python classes.',
  ['programs', 'configurations'], 'for every chain and choice of overridden methods, blocks, arguments, attributes and main-method names',
  'Tests have two-level chains with one overridden block.',
  [COM, TPL, PAR],
  [('extends/implements/super/block handling', COM + ': setBaseClass, setMainMethodName, addSuper, closeBlock'), ('subclassing and base-class wiring', TPL + ': subclass, _addCheetahPlumbingCodeToClass')],
  ['rendered output of every class in the chain'])

p('C15', 'Includes insert exactly the included content, with the includer\'s variables',
  'An include inserts, at that point, either the unparsed content of the named file or string (raw) or the rendering of that content as a template that sees the includer\'s search list and global variables; local variables and balanced-directive state do not cross, and global variables it sets remain visible. Each include is resolved from its own arguments on every rendering, no matter what was included before.',
  ['inputs', 'programs', 'histories'], 'for every mixture of raw/parsed and file/string includes, nesting, repetition, computed file names and file contents',
  'Tests include one file or string per template.',
  [TPL, COM],
  [('include handling', TPL + ': _handleCheetahInclude'), ('include directive', PAR + ': eatInclude; ' + COM + ': addInclude')],
  ['rendered output against contents on disk'])

p('C16', 'Forbidden directives and rejected expressions never compile',
  'If a directive is disabled, or not in a non-empty list of enabled ones, no template that uses it, in any syntactic form, nesting, letter case of the setting, or token customisation, compiles: the compilation raises the forbidden-directive error before any template code runs. Every expression, placeholder or Python fragment of a template is presented to the configured expression hooks with its directive name before it can become code, a hook\'s rejection aborts the compilation, and permitted templates are unaffected.',
  ['programs', 'configurations'], 'for every template and every choice of disabled/enabled directives and expression hooks',
  'One test disables a couple of directives in their plainest form.',
  [PAR],
  [('directive filter', PAR + ': _filterDisabledDirectives, eatDirective, eatPSP'), ('expression hooks', PAR + ': _applyExpressionFilters')],
  ['outcome of compile, log of hook calls'])

p('C17', 'Malformed templates fail with a located parse error and never hang',
  'Compiling any character sequence terminates, in time reasonable for its size, and either yields a class or raises the documented parse error family; it never escapes as an unrelated internal exception. The parse error names the line and column of the offending construct, shows that source line among its neighbours and the file name if any, and unbalanced or mismatched end tags are always rejected; a failed compilation leaves later compilations unaffected.',
  ['inputs', 'programs'], 'for every source text, including truncations and mutations of valid templates at every position',
  'Tests list around thirty malformed snippets; truncation at every point of every construct is not sampled.',
  [PAR, COM, 'Cheetah/SourceReader.py'],
  [('parse errors', PAR + ': ParseError.report, get* methods'), ('open-directive stack', PAR + ': pushToOpenDirectivesStack, popFromOpenDirectivesStack, assertEmptyOpenDirectivesStack'), ('row/column tracking', 'Cheetah/SourceReader.py: getRowCol'), ('Python syntax errors mapped back', TPL + ': compile, genParserErrorFromPythonException')],
  ['exception type and text, CPU time'])

p('C18', 'Token and code-style settings change the notation, not the result',
  'A template rewritten with other placeholder, directive, comment or PSP tokens, configured through compiler settings, compiler-settings directives or a custom base class, renders exactly as the original does with the default tokens. Settings that only affect generated code (comments, indentation, method order, stack-frame use, timestamps, raw-expression passing) never change the output.',
  ['configurations', 'programs'], 'for every template and every token assignment or code-style setting combination',
  'Tests try two or three alternative tokens on single placeholders.',
  [PAR, COM],
  [('token regular expressions', PAR + ': _makeCheetahVarREs, _makeDirectiveREs, _makeCommentREs, _makePspREs'), ('settings', COM + ': DEFAULT_COMPILER_SETTINGS, setCompilerSettings')],
  ['rendered output under each configuration'])

p('C19', 'The command line writes the right files, loses none, and reports failure',
  'Compile and fill commands produce for each selected input exactly the file (path, extension, directory layout) and content the API produces for it, honour the extension, directory, recursion, flat, encoding, environment, settings and data options, and touch nothing else. Existing output is backed up unless told otherwise, an input that fails leaves its previous output in place, colliding outputs are refused before anything is written, parallel runs equal sequential ones, and any failure yields a non-zero exit status.',
  ['inputs', 'configurations', 'fault_sequences', 'histories'], 'for every tree of input files, option combination, pre-existing output and failing input or child',
  'Tests run a fixed small tree with about a dozen option sets and never inject a failure.',
  ['Cheetah/CheetahWrapper.py', 'Cheetah/FileUtils.py', 'Cheetah/TemplateCmdLineIface.py'],
  [('source/destination bundles', 'Cheetah/CheetahWrapper.py: _checkForCollisions, _getFileBundles, _compileOrFillBundle'), ('parallel workers', 'Cheetah/CheetahWrapper.py: _compileOrFill')],
  ['snapshot of the directory tree before and after, exit status'])

p('C20', 'Importing templates gives the same class as compiling them, and is reversible',
  'With the import hooks installed, or through the loader functions, importing a template file by name yields a module whose class renders as the compiled file does; lookup follows the documented order (package, byte-compiled or Python module, template), the generated module is kept beside the template or in the cache directory and is never visible in part, and errors on writing it do not prevent the import. All other imports (absolute, relative, star, packages, cycles, failures) bind the same objects, run the same module bodies in the same order and raise the same errors as without the hooks; a failed import leaves no half-initialised module in the module table or on its package, and uninstalling restores the import system.',
  ['histories', 'configurations', 'fault_sequences'], 'for every history of edits, generated files, packages, failures and install/uninstall calls',
  'Tests import two fixed templates once.',
  ['Cheetah/ImportHooks.py', 'Cheetah/ImportManager.py', 'Cheetah/LoadTemplate.py'],
  [('template directory owner', 'Cheetah/ImportHooks.py: CheetahDirOwner'), ('import manager', 'Cheetah/ImportManager.py'), ('loader', 'Cheetah/LoadTemplate.py')],
  ['modules obtained in fresh processes, files on disk'])

p('C21', 'Settings read from any source mean what was written and stay where they were set',
  'A compiler setting has the value written for it whether given as a dictionary, configuration text, Python source, settings directive, command-line string or template class attribute, with the documented conversions, and later sources override earlier ones key by key. A settings directive affects only the rest of its own template, reset returns to the defaults, and no compilation, failed or not, changes the defaults or the settings of another template.',
  ['inputs', 'configurations', 'histories'], 'for every collection of settings, value types, source and order',
  'Tests read one configuration string and never look at isolation between compilations.',
  ['Cheetah/SettingsManager.py', COM, TPL, PAR],
  [('settings merging', 'Cheetah/SettingsManager.py: mergeNestedDictionaries, updateSettings*'), ('compiler settings', COM + ': setCompilerSettings, _initializeSettings; ' + TPL + ': _getCompilerSettings')],
  ['settings() values, rendered output of neighbouring templates'])

p('C22', 'Library helpers keep their algebraic contracts for every input',
  'HTML decoding inverts HTML encoding and encoding leaves no raw sensitive character; version strings order as their releases do, and generated modules refuse libraries they are too old for; template paths map to valid, deterministic module names; the indenter indents exactly as its calls or directives say; the null object answers every access and call with itself, is empty as text and false; request-variable import takes each name from the right source, converts it or falls back to the documented default, and reports bad and missing variables as documented. The directive analyser counts each directive occurrence once; report pages partition their list with correct positions and statistics; site menus show exactly the open part of the tree; the reloading loader renders the current template; the skeleton page shows exactly the data given for its parts.',
  ['inputs', 'histories'], 'for every string, version, path, call sequence, request and template',
  'Most of these helpers have no or one example test.',
  ['Cheetah/Utils/htmlEncode.py', 'Cheetah/Utils/htmlDecode.py', 'Cheetah/Version.py', 'Cheetah/convertTmplPathToModuleName.py', 'Cheetah/Utils/Indenter.py', 'Cheetah/Tools/RecursiveNull.py', 'Cheetah/Utils/WebInputMixin.py', TPL, 'Cheetah/DirectiveAnalyzer.py', 'Cheetah/Tools/MondoReport.py', 'Cheetah/Tools/SiteHierarchy.py', 'Cheetah/Tools/CGITemplate.py', 'Cheetah/Tools/turbocheetah/cheetahsupport.py', 'Cheetah/Utils/Misc.py', 'Cheetah/Templates/_SkeletonPage.py', 'Cheetah/Templates/SkeletonPage.py'],
  [('entity tables', 'Cheetah/Utils/htmlEncode.py, htmlDecode.py'), ('version tuples', 'Cheetah/Version.py: convertVersionStringToTuple'), ('request variables', TPL + ': webInput; Cheetah/Utils/WebInputMixin.py')],
  ['return values against reference definitions'])

p('C23', 'A generated module is a faithful, self-contained form of the template',
  'Writing a template\'s generated source to a file and importing it in a fresh process gives a class that renders exactly as the dynamically compiled one for the same data, with the requested class name, module name, encoding, base class, main method, docstrings, attributes and interpreter line. Compiling the same definition again yields the same generated code apart from timestamps and region identifiers, and the module\'s own command line fills it from its options, environment or data files.',
  ['programs', 'inputs', 'configurations'], 'for every template and data set',
  'Tests look at generated modules only through the command-line wrapper for one-line templates.',
  [COM, TPL, 'Cheetah/TemplateCmdLineIface.py', 'Cheetah/Servlet.py'],
  [('module assembly', COM + ': wrapModuleDef, moduleHeader, attributes'), ('class plumbing for static modules', TPL + ': _addCheetahPlumbingCodeToClass'), ('module command line', 'Cheetah/TemplateCmdLineIface.py')],
  ['rendered output in child processes'])

p('C24', 'Error catchers and silent placeholders hide exactly the errors they name',
  'With an error catcher active, a placeholder that succeeds renders as without it, one that fails with the catcher\'s kind of error renders the catcher\'s documented replacement, and any other error propagates; a silent placeholder outputs nothing exactly when a name in it cannot be found. Everything before and after the failing placeholder renders normally, and explicit try blocks see the same exceptions Python code would.',
  ['inputs', 'programs', 'fault_sequences'], 'for every placeholder expression, failing position, error type and catcher',
  'Tests use one missing variable per catcher.',
  ['Cheetah/ErrorCatchers.py', COM, PAR],
  [('catchers', 'Cheetah/ErrorCatchers.py'), ('wrapping of placeholders', COM + ': addErrorCatcherCall, setErrorCatcher, addPlaceholder')],
  ['rendered output and propagated exceptions'])

p('C25', 'Macros, preprocessors and hooks transform the source exactly once',
  'A macro receives exactly the source text between its tags with its arguments, and its result is parsed in place as if it had been written there, with whitespace, line and later-source handling unchanged; macros may nest, be repeated and be defined inline. Preprocessors run once, in order, each on the output of the previous one, and a template with no macro or preprocessor tokens is unchanged by them; translation macros mark and pass their message unchanged.',
  ['programs', 'inputs', 'configurations'], 'for every macro, argument list, body, nesting, position and preprocessor chain',
  'Tests have a few fixed macros and one preprocessor each.',
  [PAR, TPL, 'Cheetah/Macros/I18n.py'],
  [('macro calls', PAR + ': eatDefMacro, eatMacroCall'), ('preprocessing', TPL + ': _preprocessSource, _normalizePreprocessorSettings'), ('translation macro', 'Cheetah/Macros/I18n.py')],
  ['source seen by recording macros and preprocessors, rendered output'])

p('C26', 'Unicode and encoded sources, values and outputs survive unchanged',
  'A template given as text, or as a file or binary file object in a declared encoding, renders the same characters as its decoded source, for literals, placeholders, values and file names of any script, directly, through includes, generated modules and the command line. Rendering always yields text containing exactly those characters, and an undecodable source is an error rather than altered output.',
  ['inputs', 'configurations'], 'for every source text, encoding able to represent it, declaration form and value',
  'Tests use a few Latin-1 and UTF-8 samples.',
  [COM, TPL, 'Cheetah/Filters.py', 'Cheetah/DummyTransaction.py'],
  [('source decoding', COM + ': ModuleCompiler.__init__, getModuleCode'), ('value conversion', 'Cheetah/Filters.py: Filter.filter; Cheetah/DummyTransaction.py')],
  ['rendered output'])

p('C27', 'Methods defined in a template are the Python methods they describe',
  'A #def, #block, #closure or nested #def creates a function with exactly the parameters, defaults, *args/**kw and decorators written before it: calls from Python or from the template with any arguments give the result (or the kind of error) the same Python method would, output is returned in order, #return, #stop and #yield end or suspend it as in Python, each decorator is applied once, innermost first, to the function it precedes and to no other, static and class methods need no instance, and #attr sets the class attribute written.',
  ['inputs', 'configurations'], 'for every method definition and every call of it',
  'Tests define a few methods with one or two parameters and one decorator, and do not call them with wrong arguments.',
  [COM, PAR, TPL],
  [('method definitions', PAR + ': eatDefOrBlock, getDefArgList, eatDecorator, eatClosure, _eatSingleLineDef'), ('emitted methods', COM + ': AutoMethodCompiler.methodSignature, _setupState, cleanupState, addClosure, addStop, addReturn, addYield')],
  ['method results', 'exceptions', 'decorator applications'])

p('C28', 'Imports in a template are Python imports, and #extends finds what they name',
  '#import and #from bind for the whole template exactly the names the same Python statements bind, run once, in source order, when the module is loaded (with useLegacyImportMode off, one inside the body runs when that point is reached and binds its names there), and a failing import fails as in Python. #extends uses the class imported under that name and otherwise imports the class named as its module; imported names serve placeholders, methods, decorators, attributes and defaults alike.',
  ['inputs', 'configurations'], 'for every tree of modules and every placement of import statements',
  'Tests import a few standard modules at the top of a template.',
  [COM, PAR],
  [('import statements', COM + ': ModuleCompiler.addImportStatement, addImportedVarNames, importStatements'), ('base classes', COM + ': ModuleCompiler.setBaseClass; ' + PAR + ': eatExtends')],
  ['modules executed', 'bound names', 'exceptions'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for q in P:
        f.write(json.dumps(q) + '\n')
print(len(P))
