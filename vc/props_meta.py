"""the properties: what is stated (properties.jsonl), how it is claimed (MANIFEST.json) and how it is run; tools/gen.py writes the two files"""
REALS = 'floating-point numbers are treated as mathematical reals (rounding, overflow and nan are not modelled); the bounded search runs on the real floats'
TECH = 'contracts on the real functions, proved function by function by symbolic execution of the instrumented source with z3 discharging every obligation'
EX = 'src/mccode_antlr/common/expression.py'
META = {}


def prop(pid, title, statement, over, text, why, files, mechanism, observe=(), level='proof', note='', assumptions=(), trusted=(), rand_s=20, technique=TECH, **k):
    META[pid] = dict(title=title, statement=statement, quantifier={'over': over, 'text': text}, why=why,
                     anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism], 'observe_at': list(observe)},
                     level=level, note=note, assumptions=list(assumptions), trusted=list(trusted), rand_s=rand_s, technique=technique, **k)


prop('E01', 'Arithmetic on expressions means arithmetic on their values',
     'Combining instrument expressions or expressions and numbers with + - * / //, negation, absolute value, rounding and powers gives an '
     'expression whose value is, for every assignment of numbers to its identifiers for which the operation is defined on the operand values, the result of that operation on the values of the '
     'operands. Built-in simplifications (constants folded, zeros and ones dropped) never change that value, and an operation is refused only where it is undefined.',
     ['inputs'], 'all expression trees of any size and shape (numbers, identifiers, parameters, unary, binary and conditional operations), all assignments of real numbers to identifiers',
     'tests combine a handful of small trees and compare structure; the quantifier is over all trees and all assignments, where folding rules with particular constants or nestings can go wrong',
     [EX], [('operators of values, operations and expressions', EX + ' Value/UnaryOp/BinaryOp/TrinaryOp/Expr'), ('construction helpers which fold constants', EX + ' unary_expr, binary_expr')],
     note='every operator method under contract, proved by structural induction for trees of any size over the reals; floats treated as reals; string- and vector-valued operands and inverse pairs such as acos(cos x) are outside',
     assumptions=[REALS, 'string-valued, vector-valued and initializer-list operands are outside the precondition', 'inverse pairs (asin of sin etc.) are simplified to their argument by the code, which only holds on the principal branch: outside'])
prop('E02', 'Simplifying, substituting, copying and comparing keep the meaning of expressions',
     'Simplifying an expression, and substituting known names by expressions, keep its value under every assignment; two expressions that compare equal have the same value under every assignment; '
     'an expression is reported to depend on a name exactly when the name occurs in it. Copies are independent of the original, and marking names as instrument parameters changes only how those names are looked up.',
     ['inputs'], 'all expression trees, all sets of known names with all expressions for them, all assignments of numbers to identifiers',
     'tests simplify and evaluate a few fixed expressions; rewriting rules must be sound for every tree and assignment',
     [EX], [('simplify / evaluate / depends_on / copy / == / verify_parameters of each node class', EX)],
     note='each method of each node class under contract (operand lists of one element), callers checked against the contracts of the operand methods and of the arithmetic operators (E01)',
     assumptions=[REALS, 'call nodes with several arguments and initializer lists are outside (operand lists have one element)', 'the arithmetic operators satisfy their contracts (E01)'])
prop('E03', 'Printed expressions read back with the same meaning',
     'The text printed for an expression, read with the precedence rules of C (with ^ as power) and read with the precedence rules of the McCode grammar, denotes the same value as the expression under every assignment; '
     'when a parameter prefix is requested it appears on exactly the names which are instrument parameters.',
     ['inputs'], 'all expression trees of any size with C style, all assignments',
     'tests print a few flat expressions; whether parentheses are needed depends on the combination of nested operators',
     [EX], [('__str__ / __format__ / _str_repr_ of each node class, parenthesising', EX)],
     note='each printing method under contract against an independently written operator-precedence reader; texts of operands by contract (meaning and tightness)',
     assumptions=[REALS, 'integer division // is printed as a C division: outside', 'numbers are printed by Python; their texts are assumed to denote them, a negative number starting with a sign',
                  'member access on a numeric literal is outside', 'Python-style printing is outside', 'operand lists have one element'],
     trusted=['props/reader.py: the precedence tables of C and of McCommon.g4'])

OR = 'src/mccode_antlr/instr/orientation.py'
TECHSEQ = TECH + '; chains and lists of unknown length by loop invariants and folds'
prop('O01', 'Coordinate transformations compose, invert and reduce like rigid motions',
     'Vectors, matrices and Seitz operations obey the algebra of linear maps and rigid motions: products compose, transposes of rotations invert them, and the inverse of an operation undoes it. '
     'A rotation given by three angles in degrees or radian is the product of the rotations around x, y and z with the sign convention of McStas. A chain of transformation parts of any length resolves to the product of its '
     'parts; reducing it, copying it, adding translations in its frame, inverting it, and building it from a position and angles relative to another chain keep that meaning; its position and rotation matrix are those of the product. '
     'The Euler angles reported for a constant rotation reproduce it, and identity, translation and rotation tests hold only for such operations.',
     ['inputs'], 'all vectors, matrices and rigid motions with real or symbolic entries, all angles (symbolic, constant degrees or radian), all chains of parts of any length',
     'tests compose a few constant rotations by multiples of 30 or 90 degrees; the algebra has to hold for all entries and for chains of any length and mixture of parts',
     [OR], [('vector, matrix and Seitz algebra', OR + ' Vector/Matrix/Rotation/Seitz'), ('parts and chains of parts', OR + ' Part/RotationX/Y/Z/TranslationPart/Parts'), ('Euler angles', OR + ' axes_euler_angles')],
     technique=TECHSEQ,
     note='entries of vectors and matrices are lazily unfolded expressions (contracts of E01/E02 for their arithmetic); chains of any length by loop invariants; rotation_axis_angle/specialization by bounded search only',
     assumptions=[REALS, 'the arithmetic operators and simplification of entries satisfy their contracts (E01, E02)', 'sine and cosine satisfy sin^2+cos^2=1, the addition of signs and the exact values at multiples of 90 degrees; symbolic angles stand for sine and cosine in the unit of their expression',
                  'Euler angles of rotations within 1e-8 of, but not at, Y=+-90 degrees, and of symbolic rotations, are outside'])

INI = 'src/mccode_antlr/translators/c_initialise.py'
prop('O02', 'Components are placed where AT and ROTATED say',
     'The orientation of a component instance has the position and rotation which AT and ROTATED give: absolute, or relative to the position and rotation of the components they refer to (a rotation by angles in degrees around x, then y, then z; '
     'the AT vector in the axes of its reference). The generated C initialisation computes the same absolute position and rotation, and as relative position and rotation those with respect to the last preceding component which transforms '
     'coordinates, or the origin when there is none. When an instrument is split, the components of the second part keep, for constant angles, their absolute positions and rotations, and refer only to components of that part.',
     ['inputs'], 'all AT vectors and ROTATED angles (numbers and parameter expressions) and placements of references; instruments with any number of components, of which any do not transform coordinates; every split point',
     'tests place a few components by multiples of 90 degrees or compare the text of the generated code; the placement must hold for all combinations of references, angles and vectors, over instruments of any length',
     ['src/mccode_antlr/instr/instance.py', OR, INI, 'src/mccode_antlr/instr/instr.py'],
     [('orientation of an instance', 'src/mccode_antlr/instr/instance.py Instance.__post_init__, ' + OR + ' Orient'), ('C initialisation of positions', INI + ' cogen_comp_init_position, cogen_initialize'), ('splitting', 'src/mccode_antlr/instr/instr.py Instr.split')],
     technique=TECHSEQ,
     note='the statements of the generated C are interpreted under contracts for the McStas run-time library (rot_*, coords_*); loops over components by invariants; chains by their contracts (O01)',
     assumptions=[REALS, 'the chain operations satisfy their contracts (O01), expressions theirs (E01-E03)', 'the McStas run-time library functions rot_set_rotation, rot_mul, rot_transpose, rot_copy, rot_apply and coords_* satisfy the contracts in props/o02.py',
                  'component names differ from the local variables tc1, tc2, tr1 of the generated code', 'splitting with rotations which are not constant is outside (known finding)'],
     trusted=['props/o02.py Place: contracts of the McStas run-time library', 'props/ctext.py: the C parser'])

RTF = 'src/mccode_antlr/translators/c_raytrace.py'
TGT = 'src/mccode_antlr/translators/target.py'
prop('T01', 'Generated TRACE code obeys WHEN, SPLIT, GROUP, JUMP and RESTORE',
     'The generated function raytrace visits the components in order. A component is given exactly the particles which come to it and fulfil its WHEN, in its own coordinates; a particle which it restores goes on unchanged; one which it absorbs ends. '
     'Of a GROUP, a particle takes the first member which scatters it and leaves the group behind the last; each member gets the state before the group, and a particle which none scatters is absorbed. '
     'SPLIT makes as many copies as it says, with weight and state of the particle, the weight divided by their number, and random numbers going on; every copy goes through the rest. '
     'A JUMP leads to its named or relative target, WHEN if its condition holds, ITERATE the number of times less one, taking the coordinates along. After the last component a particle is absorbed. '
     'Coordinates are those of the last component which has code. The FUNNEL code does the same for instruments without SPLIT and JUMP.',
     ['inputs', 'histories'], 'all instruments with any number of components, any code, WHEN, SPLIT, GROUP and JUMP of the kinds the language allows; all particles, all behaviours of components; copies and split parts of instruments, repeated translation',
     'tests compile a few instruments with hardly any of these keywords; what matters is how keywords combine on neighbouring components and what earlier components and earlier rounds leave behind in the particle',
     [RTF, TGT, 'src/mccode_antlr/instr/group.py', 'src/mccode_antlr/instr/instr.py'],
     [('code of raytrace', RTF + ' cogen_raytrace'), ('code of raytrace_all_funnel', RTF + ' cogen_funnel'), ('targets of JUMP', TGT + ' TargetVisitor.set_jump_absolute_targets'),
      ('components without change of coordinates', TGT + ' TargetVisitor.detect_skipable_transforms'), ('members of a GROUP', 'src/mccode_antlr/instr/instr.py Instr.determine_groups, src/mccode_antlr/instr/group.py Group')],
     technique=TECHSEQ,
     note='the loops over components and jumps are cut by invariants over the particle (who reaches the next component, in which coordinates, with what to restore); the code emitted for one arbitrary component and one arbitrary JUMP is run on an arbitrary particle '
          'and has to agree with the rules for every state; Group and determine_groups are bounded (whole random instruments of up to 7 components run against the rules)',
     assumptions=['class_X_trace changes position, weight and random state of the particle it is given and its ABSORBED, SCATTERED and RESTORE flags in any way; mccoordschange and coords_* change the frame; particle_restore gives back the state and clears ABSORBED and RESTORE',
                  'expressions print as one operand with their meaning (E03)', 'outside: members of a GROUP which do not follow each other, JUMPs from and into members of a GROUP behind the first, backward JUMPs at or after SPLIT, SPLIT on later members of a GROUP, SPLIT into 0, '
                  'two ITERATE JUMPs of one component to one target, names for which Jump_<name>_<target> coincide, empty TRACE blocks', 'in FUNNEL mode SPLIT and JUMP are outside', 'contract of Group (first, last, leader) is assumed by the proof and checked by the bounded search'],
     trusted=['props/t01.py Rules: the meaning of the keywords', 'props/ctext.py: the C parser'])

RG, RN = 'src/mccode_antlr/run/range.py', 'src/mccode_antlr/run/runner.py'
prop('R01', 'A scan runs each of its points once, with its values, in its directory',
     'A range start:step:stop has the values start, start+step, ... as far as stop (included, in spite of rounding), an index outside of it is refused, and iterating over it gives these values in order. '
     'A scan of parameters with ranges, lists and single values has as its points all combinations of their values once (grid), or the first, second, ... values together with single ones repeated (line; parameters with different numbers of values are refused). '
     'Each point is run once, in a directory of its own which is numbered by the point, with exactly the values of its point under the names which were given, and with each runtime option (seed, ncount, trace, gravitation, bufsiz, format) that is set, once and with its value. '
     'Results come in the order of the points. What is written on the command line (name=value or name value, options anywhere between) is what is run: an instrument which is compiled already as it is, any other one read, and compiled with the generator and the options asked for.',
     ['inputs'], 'all ranges; all numbers of points; all combinations of ranges, lists and single values; all settings of the options; command lines with options in all places',
     'tests have no scan at all and no range; values of ranges depend on signs, rounding and steps which do not fit, points on how parameters of different kinds combine',
     [RG, RN],
     [('values of a range', RG + ' MRange'), ('points of a scan', RG + ' parameters_to_scan'), ('running the points', RN + ' mccode_run_scan, mccode_runtime_parameters'), ('the command line', RG + ' parse_scan_parameters, ' + RN + ' parse_mccode_run_script')],
     technique=TECHSEQ,
     note='MRange, the options and the loop over the points are proved for any numbers and any number of points; parameters_to_scan for up to 3 parameters with any number of values; compiling for a run for all outcomes; the command line, what is named on it, and the directory of a point by bounded search only',
     assumptions=[REALS, 'itertools.product makes every combination once, argparse parses as documented', 'mccode_run_compiled runs the program it is given with the directory and the words of its text', 
                  'outside: scans with parameters but without any point, "dir" among the runtime options, values and directories with blanks, negative values as words of their own on the command line'],
     trusted=['itertools.product'])

IN, CO = 'src/mccode_antlr/instr/instance.py', 'src/mccode_antlr/comp/comp.py'
prop('I02', 'A component instance has the parameters and keywords it was given',
     'Setting a parameter of an instance is refused if its component type has no such parameter or the value is not compatible with it (numbers for numbers, vectors for vectors; names, operations and texts where their type cannot be known), and then changes nothing. '
     'Of a repeated parameter the first value is kept, unless overwriting is asked for, which replaces exactly that parameter; all others stay as they are. Values get the type which the component type defines; texts are read as expressions. '
     'A parameter of an instance is its own or else that of its type. A component type defines each name once. WHEN, SPLIT, GROUP, CPU, REMOVABLE, EXTEND and JUMP are what was stated last; a constant WHEN is refused. '
     'There is one metadata of each name, that of the instance before that of its type. A copy of an instance has everything of the original; an instance made by COPY has its parameters, WHEN, GROUP, EXTEND, JUMP and metadata, and the placement, SPLIT, REMOVABLE and CPU of its own. '
     'A name is reported as used exactly if it occurs in a parameter, the placement, WHEN, SPLIT, an EXTEND block or a JUMP condition. Names in parameter values which are those of instrument parameters are marked as such, all others stay as they are.',
     ['inputs'], 'all component types and instances with any number of parameters, blocks, jumps and metadata; all names; all kinds of values',
     'tests set a few known parameters of a few instances; what matters is what happens to the other parameters, in refusals and repetitions, and what a copy leaves out',
     [IN, CO, 'src/mccode_antlr/common/parameters.py', 'src/mccode_antlr/common/expression.py'],
     [('setting parameters', IN + ' Instance.set_parameter'), ('definitions of parameters', CO + ' Comp.add_define, add_setting, add_output, get_parameter'), ('compatibility', 'src/mccode_antlr/common/expression.py Expr.compatible, Value.compatible'),
      ('keywords', IN + ' Instance.WHEN, SPLIT, GROUP, EXTEND, JUMP, CPU, REMOVABLE'), ('metadata', IN + ' Instance.add_metadata, collect_metadata'), ('copies', IN + ' Instance.copy, from_instance'), ('use of names', IN + ' Instance.parameter_used, verify_parameters')],
     technique=TECHSEQ,
     note='sequences of parameters, blocks, jumps and metadata have any length; collect_metadata for up to 3 of each, EXTEND and JUMP for up to 3 stated blocks',
     assumptions=['names within the parameters of one instance and one component type are distinct (which the contracts of set_parameter and add_* preserve)', 'reading a text gives an expression; equality and occurrence of names in expressions satisfy E02'])

IV, CVF = 'src/mccode_antlr/instr/visitor.py', 'src/mccode_antlr/comp/visitor.py'
prop('I03', 'An instrument or component read from a file has what its statements say',
     'COMPONENT adds exactly one instance with the stated name, type, placement, rotation (that of what AT refers to when there is no ROTATED), parameters, SPLIT, WHEN, GROUP, EXTEND, JUMP, REMOVABLE, CPU and metadata; for COPY what is not stated comes from the copied instance. '
     'A REMOVABLE component of an included instrument is left out. A reference by name is to the component of that name, in the included instrument or else outside; PREVIOUS(n) is to the n-th last component, continuing outside; a reference to what does not exist is an error. '
     'JUMP has its target, relative number, kind and condition. PREVIOUS and MYSELF in expressions are the names of the last component and of the present instance. Parameters of instruments, instances and component definitions have their name, unit, type and value; unknown parameters of an instance are errors. '
     'Including an instrument adds its parameters, metadata, flags, components which are not REMOVABLE and blocks behind those which are there. Blocks keep text, file and line. The command of SHELL is run as it is written. Sections of a component definition have the copied blocks (COPY), then their own (EXTEND); the component which is copied from stays as it is. '
     'A copied definition has all of the original but its name; NOACC, category, dependency flags and metadata are those stated.',
     ['inputs'], 'all statements with any names, numbers and texts and any number of parameters, components, blocks, jumps and metadata',
     'tests read a few files and look at some of the result; combinations of keywords, references across included instruments, COPY with and without EXTEND, and most parameter types are in no test',
     [IV, CVF, 'src/mccode_antlr/instr/instr.py'],
     [('COMPONENT', IV + ' InstrVisitor.visitComponent_instance'), ('references', IV + ' visitComponent_ref, visitReference'), ('include', IV + ' visitInstrument_trace_include'), ('parameters', IV + ' visitInstanceParameterExpr, visitInstrumentParameterDouble'),
      ('jumps', IV + ' visitJump'), ('component definitions', CVF + ' CompVisitor')],
     technique=TECHSEQ,
     note='each method of the visitors against the contract of visiting: what visiting the parts of a statement gives is arbitrary. The grammar and the parser made from it are assumed',
     assumptions=['the parser gives the statements of the text (generated code)', 'setting parameters, metadata and keywords satisfies I02', 'visiting a part of a statement gives what its method says (structural induction over the tree)'])

VI = 'src/mccode_antlr/common/visitor.py'
prop('E04', 'The text of an expression is read as the expression it says',
     'Each form of an expression - unary, binary and conditional operations, parentheses, member and element access, calls - is read as its operation, with its operands in the order of the text, and so has the value of this operation on the values of its operands. '
     'A name is marked as a parameter exactly if the instrument or component being read has a parameter of that name, whose type it then has. A call is of the named function, with its arguments in order (or none). '
     'A literal is its number: decimal, octal, hexadecimal or binary, with an exponent, with suffixes. Neighbouring text literals are one text, keeping escaped quotes. A list of numbers and names in braces is the vector of them in order. '
     'A whole text of arithmetic, comparisons, conditions and parentheses has the value it has in C (with ^ as power, which associates to the right).',
     ['inputs'], 'all expressions for the parts of each form; all names and parameters; literals of all forms; random whole texts',
     'tests read some fixed texts, mostly numbers and single operations; every form has its own method, and what their combination means depends on precedence',
     [VI, EX, 'src/grammar/McCommon.g4'], [('forms of expressions', VI + ' visitExpression*'), ('lists', VI + ' visitInitializerlist'), ('literals', EX + ' Value.int, Value.float, Value.str'), ('reading a text', EX + ' Expr.parse')],
     note='each method of the visitors proved against the contract of visiting its parts; literals and whole texts (through the real parser) by bounded search; the grammar of operators whose precedence is wrong is recorded in six findings',
     assumptions=[REALS, 'the parser gives the parse tree of the grammar (generated code)', 'the arithmetic operators satisfy E01',
                  'outside, as recorded findings: a sign directly behind an operator, % next to + or -, >> next to <<, && next to ||, ! before comparisons, == or != next to other comparisons',
                  'outside: lists with operations or calls as elements, character literals'])

II, AS = 'src/mccode_antlr/instr/instr.py', 'src/mccode_antlr/assembler/assembler.py'
prop('I01', 'An instrument contains what was added to it, once and in order',
     'Components, parameters and blocks are appended to what is there; a second component or parameter of the same name is refused (or a repeated parameter ignored, if asked for) and then nothing is changed. Components and parameters are found by their names; PREVIOUS and last_component count back from the last one. '
     'Groups have their members in order of the components, and are numbered in order of their first member. A parameter counts as used if it occurs in any component or block, and only those which are not used are removed, if that is asked for. '
     'A copy has everything of the original, or a range of its components. Splitting at a component gives a first part up to it and a second part from it on, each with all parameters and blocks; components of the second part which are placed or rotated relative to one that is not in it get their absolute placement or rotation; mcpl_split replaces it in the first part by an output and in the second by an input, at the same place and with the same file. '
     'A component added by the Assembler has the name, type, placement, rotation (relative to what it is placed relative to when nothing is said), parameters and keywords it is given, and the flags of its type are kept; parameters, blocks, arrays and metadata added by the Assembler are those given, and a user variable is declared once.',
     ['inputs'], 'all instruments with any number of components, parameters, blocks, flags and metadata; all names; all ways to state a placement',
     'tests build few small instruments; what matters is what happens to everything else in refusals, copies and parts, and how groups and references are kept',
     [II, AS, 'src/mccode_antlr/instr/group.py'],
     [('adding and finding', II + ' Instr.add_component, add_parameter, get_component, last_component'), ('groups', II + ' Instr.determine_groups'), ('copies and parts', II + ' Instr.copy, split, mcpl_split, check_instrument_parameters, parameter_used'), ('making instances', II + ' Instr.make_instance'), ('assembling', AS + ' Assembler')],
     technique=TECHSEQ,
     note='components, parameters, blocks, flags, component types and metadata in any number; check_instrument_parameters, Group and the parameters of one call for up to 4 (bounded); ensure_user_var through the C parser by bounded search',
     assumptions=['components of one instrument have distinct names (which the contract of add_component preserves)', 'setting parameters, copies and use of instances satisfy I02, orientations O02', 'parameters are shared between an instrument and its copies'])

CC, CK = 'src/mccode_antlr/compiler/c.py', 'src/mccode_antlr/compiler/check.py'
prop('D01', 'Binaries are compiled with the flags they need, and run as asked',
     'The flags of an instrument are those of its components and DEPENDENCY, each once, in the order in which they were stated first, and -DFUNNEL if and only if a component runs on the CPU. '
     'In each flag, configuration keywords (@NEXUSFLAGS@, @xFLAGS@) stand for what is configured, ENV(), CMD() and GETPATH() for the variable, the line of output, and the file they name (in the first registry that has it); everything else stays as it is, and commands which fail or give several lines are an error. '
     'A target has the compiler and flags of its kind (OpenACC before MPI before plain), with those of MPI and NeXus if asked for, also after an update, which changes only what it is given. The compiler gets the flags of its target, the linker its own and, behind the source, the words of those of the instrument (for Windows, definitions and the language standard go to the compiler). '
     'An existing binary is kept unless it is to be replaced; otherwise the generated source is compiled exactly once to the place that was given, by the compiler of the target, only if that compiler works, and a compiler which fails or makes nothing is an error. '
     'A binary is run once, by MPI with the stated number of processes and machine file if it is an MPI target, with the words of its options; a run which fails is an error.',
     ['inputs'], 'all lists of flags and texts of directives; all kinds of targets, updates and configurations; all outcomes of compilers, commands and runs; all places for the binary',
     'tests compile small instruments with the plain compiler only, if there is one; order of flags depends on hashes, updates and targets on combinations of settings, errors on what the system does',
     [CC, CK, 'src/mccode_antlr/instr/instr.py'],
     [('flags of an instrument', 'src/mccode_antlr/instr/instr.py unique_flags, decoded_flags, _replace_env_getpath_cmd, _replace_keywords'), ('targets', CC + ' CBinaryTarget'), ('flags of the compiler', CC + ' linux_split_flags, windows_split_flags'), ('compiling', CC + ' _compile_instrument, compile_instrument, linux_compile, windows_compile'), ('working compilers', CK + ' compiled, compiles'), ('running', CC + ' run_compiled_instrument')],
     technique=TECHSEQ,
     note='compilers, commands and runs are stand-ins which record what they are given and give any result. Proved for all flags and texts (up to 2 directives in one flag) and for all kinds of targets, and for any number of components, flags and registries; _replace_keywords (regular expressions) and windows_compile by bounded search only',
     assumptions=['subprocess.run does what it is told', 'texts of directives contain no further directives or brackets', 'outside: OpenACC and MPI together (refused by run), writing of the source with dump_source'],
     trusted=['subprocess.run', 'os.access'])

TR = 'src/mccode_antlr/translators/'
prop('T02', 'The generated C sets, declares and runs what the instrument says',
     'In the generated C each component first gets its name, type, number, the value of each of its definition and setting parameters (numbers, names, operations and calls as they are, with instrument parameters where they are; texts completely, whatever characters they contain; vectors element by element; the default where nothing is said) '
     'and the initial values of its private variables; a text or pointer without value is empty or NULL. INITIALIZE, SAVE, FINALLY and DISPLAY run the code of the instrument (after all components are set and placed, for INITIALIZE), then that of each component which has some, once, in order, for the component itself. '
     'TRACE code is run for all components of its type, EXTEND code for its own component only, after what happened to the particle has been reset. Around all such code exactly the parameters of the component (or the instrument) are defined, and none afterwards. '
     'Structures have a member of the right type for every parameter and variable, tables have a row for each instrument parameter and each metadata with their texts unchanged, and lookups by name find each component, its number, and each user variable, and nothing else.',
     ['inputs'], 'all names, numbers and texts; any number of parameters and private variables of every type and form of value; instruments with any mixture of types, sections and blocks',
     'tests compile one or two instruments if there is a compiler, with number parameters mostly; what matters is every combination of type and form of value, texts with quotes or characters outside of ASCII, and several components per type',
     [TR + 'c_initialise.py', TR + 'c_decls.py', TR + 'c_defines.py', TR + 'c_trace.py', TR + 'c_macros.py', TR + 'c_header.py'],
     [('initialization', TR + 'c_initialise.py cogen_comp_setpos'), ('sections', TR + 'c_initialise.py, c_save.py, c_finally.py, c_display.py'), ('TRACE and EXTEND', TR + 'c_trace.py cogen_comp_trace_class'), ('declarations and tables', TR + 'c_decls.py'), ('lookups', TR + 'c_macros.py'),
      ('the particle', TR + 'c_header.py'), ('texts', 'src/mccode_antlr/common/utilities.py escape_str_for_c')],
     technique=TECHSEQ,
     note='the generated text is parsed as C and run as far as it sets members. Setting parameters and private variables, the functions of all sections and of TRACE, of a component type and of the instrument, structures, and lookups by name are proved for any number of parameters, blocks and components; the elements of parameters which are lists for up to two (bounded); tables, the particle and texts in C, and whole random instruments which are compiled with gcc and a small runtime, run, and compared with an independent model of them, by bounded search',
     assumptions=['placement is O02, the particle loop T01', 'a text given for a parameter is a literal of C in quotes', 'the number of bytes of a text is at least that of its characters', 'sizes of arrays without size are those of their initializer (V01)',
                  'outside: #define of values, SYMBOL parameters, function prototypes and static or const variables in DECLARE'],
     rand_s=60, trusted=['stracpy, calloc, memcpy, strlen of the C runtime', 'gcc, and the small runtime of props/crun.py (bounded search only)'])

prop('V01', 'The C code of components is read and put together correctly',
     'Every variable which DECLARE or USERVARS blocks declare is found, once and in order, with its name, type, form (pointer, array of any dimensions, pointer to a function) and initial value, whatever blanks and comments there are; aliases of types are known as types; local variables of functions are not taken for declared ones. '
     'As member of a structure a variable has the same type, sizes which are missing being those of its initial value. Two declarations are the same exactly if all their parts are; a copy differs from its original in the suffix of its name only. '
     'User variables are those of the instrument, each once, and for each component those of its type, ending in its number; one name for different variables is refused, and nothing else is. '
     'Included files are where they are included, and libraries which are included, directly, by libraries or by files, are in the generated C exactly once, header and source, after what they need. Simple assignments give variables the values which C gives them, and leave the given ones as they are.',
     ['inputs'], 'all declarations of scalars, pointers, arrays and pointers to functions with any names and types; all sets of blocks and types of components; all libraries and files which include each other without cycle; all sequences of simple assignments',
     'tests read a handful of declarations; forms, blanks, comments and initial values combine freely, and the order of libraries depends on the whole graph of includes',
     [TR + 'c_listener.py', TR + 'c.py'],
     [('declarations', TR + 'c_listener.py DeclaresCVisitor, CDeclarator, CFuncPointer'), ('sizes', TR + 'c_listener.py extract_initializer_size'), ('user variables', TR + 'c.py _determine_uservars'), ('%include', TR + 'c.py _handle_raw_c_include, sort_include_hierarchy, visit_declare'),
      ('assignments', TR + 'c_listener.py evaluate_c_defined_variables')],
     technique=TECHSEQ, rand_s=45,
     note='equality, copies and the visitor methods of declarations proved for symbolic names and any number of declarators (arrays of up to three dimensions); whole texts through the real parser, user variables, %include and assignments by bounded search',
     assumptions=['the parser builds the parse tree of the text (bounded search goes through it)', 'outside: function prototypes, static or const variables and parenthesised names in DECLARE; pointers to arrays; rows of initial values without braces; libraries which include each other in a cycle; division of integers and initializer lists in assignments'],
     trusted=[])

prop('W01', 'An instrument which is written reads back as the same instrument',
     'The text which an instrument writes of itself (to_file, to_string, str) is an instr file, and says exactly what the instrument is: its name, its parameters with their types, units and default values, its metadata, flags and blocks of code, '
     'and each component in order with its name, type, parameters, place and rotation and what these are relative to, REMOVABLE, CPU, SPLIT, WHEN, GROUP, EXTEND, JUMP and METADATA. '
     'No name, text, number or expression is changed, cut or run into what follows it, and nothing is written which was not there.',
     ['inputs'], 'all instruments with any number of parameters, components, blocks, metadata, jumps and flags, with any names, texts, numbers and expressions',
     'tests write a few instruments and look at a line of them; whether a part is lost or changed depends on which parts are there, and on what their names and texts are',
     ['src/mccode_antlr/instr/instr.py', 'src/mccode_antlr/instr/instance.py', 'src/mccode_antlr/instr/jump.py', 'src/mccode_antlr/common/textwrap.py', 'src/mccode_antlr/common/parameters.py', 'src/mccode_antlr/common/metadata.py'],
     [('instruments', 'src/mccode_antlr/instr/instr.py Instr.to_file'), ('instances', 'src/mccode_antlr/instr/instance.py Instance.to_file'), ('parameters', 'src/mccode_antlr/common/parameters.py InstrumentParameter.to_file, ComponentParameter.to_string'),
      ('JUMP', 'src/mccode_antlr/instr/jump.py Jump.to_file'), ('METADATA', 'src/mccode_antlr/common/metadata.py MetaData.to_file'), ('lines and blocks', 'src/mccode_antlr/common/textwrap.py TextWrapper')],
     technique=TECHSEQ, rand_s=70,
     note='each method which writes proved for unknown names, texts and expressions and any number of elements, read against the grammar of instr files (bounds: values of up to 3 elements, 3 flags); whole instruments through the real reader by bounded search',
     assumptions=['expressions are written as E04 says', 'the grammar of instr files is that of McInstr.g4 as restated in props/itext.py (the bounded search goes through the real parser)', 'texts have no %} in blocks; names of registries and files do not end a comment',
                  'outside: SEARCH and SHELL (the registries of an instrument are named in a comment only), HTML output'],
     trusted=['print and io.StringIO'])

prop('G01', 'A name of a file stands for that file, of the first registry which has it',
     'Registries are asked in the order of their priority (those of higher priority first, then as given; one named by SEARCH before all others), and the first which has a file of the asked name gives it: its path, contents and full name. '
     'A component is defined by the file of exactly its name; a file whose name only ends with or contains that name is never taken for it, and a name which no registry has is refused. '
     'A registry knows exactly the files which it lists or which are in its folder, wherever in it they are, and finds what is searched for among them. SEARCH takes a folder, a name and a folder, or a name, url and list of files, and refuses anything else. '
     'A list of files which was downloaded is kept and used again; nothing is kept of a download which failed. The category of a component is its folder in its registry.',
     ['inputs', 'environment'], 'all sets of registries in memory, local and remote, with any priorities, files in any folders and with any names, and any names and extensions asked for',
     'tests need the network for most registries and ask for files which exist once; which file is taken matters when several registries or files have similar names',
     ['src/mccode_antlr/reader/registry.py', 'src/mccode_antlr/reader/reader.py', 'src/mccode_antlr/instr/visitor.py'],
     [('order', 'src/mccode_antlr/reader/registry.py ordered_registries'), ('files', 'src/mccode_antlr/reader/registry.py RemoteRegistry.known, fullname; LocalRegistry.known, fullname; InMemoryRegistry.known'),
      ('first which has it', 'src/mccode_antlr/reader/reader.py Reader.locate, contents, fullname'), ('components', 'src/mccode_antlr/reader/reader.py Reader.add_component'), ('SEARCH', 'src/mccode_antlr/reader/registry.py registry_from_specification')],
     technique=TECHSEQ, rand_s=50,
     note='the choice among any number of registries proved (a loop over an unknown sequence; three registries if only those of a name are asked); file names, folders, lists of files, SEARCH and whole readings of components by bounded search with the file system in a scratch folder and the network replaced',
     assumptions=['pooch fetches the file which it is asked for', 'files of the same name in different folders of one remote registry: the first of its list', 'outside: names which are asked for without extension or in part (not strict) when several files fit; folders with blanks in SEARCH; the git repository with the list of versions'],
     trusted=['pathlib, pooch, requests'])

prop('L01', 'Data and simulation files are read, combined and written without any change',
     'A data file (of 0, 1 or 2 dimensions) or a simulation file which is read has every key, parameter, variable and number of its text, each under its own name, also where names or texts contain those of others; written and read again it says the same, and writing a data file never replaces another. '
     'Combining the files of one monitor adds intensities, events and counts of rays, adds errors in quadrature, keeps axes, variables, parameters and what is common, each seed, directory and date, and changes none of the parts. '
     'Combined simulation files have each monitor once, in the order of appearance, with totals, minimum and maximum of all and with the event-weighted mean, center and width; what is unknown of a part is unknown of the whole. '
     'What does not fit together (other parameters, shapes, limits, components, or monitors of one name which differ) is refused and no file is written.',
     ['inputs', 'history'], 'all data files of up to two dimensions with any numbers, parameters and names, and any number of them or of simulation files with any monitors',
     'tests read one file of each kind and combine copies of it, for which a sum of errors, a lost name or a mixed up key is not seen',
     ['src/mccode_antlr/loader/datfile.py', 'src/mccode_antlr/loader/simfile.py'],
     [('numbers of data files', 'src/mccode_antlr/loader/datfile.py combine_scan_data'), ('data files', 'src/mccode_antlr/loader/datfile.py read_mccode_dat, DatFileCommon, write_combined_mccode_dats, combine_scan_dicts'),
      ('monitors', 'src/mccode_antlr/loader/simfile.py SimFileData.combine, is_repeat'), ('simulation files', 'src/mccode_antlr/loader/simfile.py SimFile.load, save, combine_mccode_sims')],
     technique=TECHSEQ, rand_s=60,
     note='combination of data proved for arrays of any size (one, two and three axes) and real numbers; combination of the totals of monitors proved for all numbers; the texts of data and simulation files by bounded search through scratch files',
     assumptions=['real numbers are exact in the proofs', 'numpy works element by element (contracts of sum, power, copy and indexing)', 'outside: the lines signal and statistics of combined data files, the axes of DatFile objects (dim_metadata), monitors of one component in several files of other names, counts of simulations which are no repeats',
                  'the weight of a monitor is its number of events'],
     trusted=['numpy', 'float and str are inverse'])
prop('H01', 'An object which is saved in an HDF5 file is loaded as the same object',
     'An instrument, or any of its parts (component types, instances, parameters, expressions, orientations, blocks of C, metadata, jumps, groups, registries, and lists, tuples, dictionaries, texts and numbers of these), which is saved in an HDF5 file can be saved and loaded, and what is loaded is of the same type and equal in every field: every name, number, unit, text of any length, type of a value, unit of an angle, mode, flag and priority, empty parts included. '
     'Elements are loaded in their order, whatever their number; the instances of a loaded instrument refer to its own instances and component types, and its groups have its own instances as members. '
     'A file which was written by another version, or which does not say what it contains, and an instance whose component type or reference is missing are refused and not loaded as something else.',
     ['inputs', 'history'], 'all objects of the types which can be saved, with any values of their fields and any references among the instances, and any lengths',
     'tests save a handful of instruments and compare what their equality looks at, which leaves out many fields; what is lost depends on the kind of part and on values (none, empty, long, radian, types set later) which they have not',
     ['src/mccode_antlr/io/hdf5.py'],
     [('handlers', 'src/mccode_antlr/io/hdf5.py HDF5IO._handlers, _standard_read, _standard_save'), ('instruments', 'src/mccode_antlr/io/hdf5.py InstrIO, InstanceIO, GroupIO'), ('operations', 'src/mccode_antlr/io/hdf5.py _op_io, ValueIO'),
      ('order', 'src/mccode_antlr/io/hdf5.py ListIO, TupleIO'), ('files', 'src/mccode_antlr/io/hdf5.py save_hdf5, load_hdf5')],
     technique='contract-based deductive verification of the save and load functions of every handler, each against the contract of saving and loading its parts over a ghost HDF5 group; bounded search with whole files',
     rand_s=60,
     note='each handler proved over a ghost group, with saving and loading of the parts by contract (so objects of any depth); lists, tuples and dictionaries for lengths 0 to 12 and 99 to 101, instruments of up to 11 instances with any references among the first three; h5py itself, whole instruments and objects by bounded search with real files',
     assumptions=['names, units, file names and other texts which are attributes fit into an attribute (64 kB)', 'outside: texts with NUL, integers beyond 64 bits, the order of the keys of a dictionary, fields which are none where a value is required, objects without a handler', 'outside: remote registries which can not be made again without network; their list of files given as a path'],
     trusted=['h5py'])

prop('C01', 'The command line programs do what they are asked and touch nothing else',
     'Removing a cache removes exactly the folder of the named cache, or of the named version of it, or all caches if none is named; it never removes anything which is not inside of the folder it was named in (parent folders, links to elsewhere, other caches, absolute paths), and nothing without --force or the answer yes. Listing shows every cache, or version of a cache, once. '
     'The configuration which is listed, asked for by a key, or saved, read again as YAML, is the one which is used, from all of its sources (the first which has a value gives it); a key which is not known has no value and is not an error; setting a value changes it and no other, and saving writes one file. '
     'mcstas-antlr and mcxtrace-antlr read the named file (.instr or saved .h5), search for components in the library of that program, in the given folders in their order and in the working directory, and write C with exactly the options asked for, to the named output or else beside the instrument; without a file or asked for the version they do nothing else.',
     ['inputs', 'environment'], 'all arguments of the programs, any names of caches and versions and folders they lead to, any answers, any sources of configuration with any keys and values',
     'no test runs these programs; what they remove or write with unusual arguments is seen only when it is lost',
     ['src/mccode_antlr/cli/management.py', 'src/mccode_antlr/cli/commands.py'],
     [('caches', 'src/mccode_antlr/cli/management.py cache_remove, cache_list'), ('configuration', 'src/mccode_antlr/cli/management.py config_list, config_get, config_set, config_save, config_dump'),
      ('translation', 'src/mccode_antlr/cli/commands.py mccode, mccode_script_parse, mcstas, mcxtrace')],
     technique='contract-based deductive verification of cache_remove over paths which lead anywhere (where each leads is an unknown of the proof) and of the translation programs against the contracts of reader, registries and code generation; bounded search with folders and configurations',
     rand_s=40,
     note='cache_remove proved for paths which lead anywhere, with the removal replaced by a record of the path; the options of the translation programs proved over all their combinations with reader and code generation by contract; names of caches, listing and configuration by bounded search in a scratch folder; two open findings (config set and unset do not last)',
     assumptions=['what os and shutil do between the check of a path and its removal (links made at the same time) is outside', 'sources of configuration agree on which keys have keys of their own', 'outside: compiled and run programs (R01), names of registries with unusual characters'],
     trusted=['argparse, confuse, yaml, pathlib'])
