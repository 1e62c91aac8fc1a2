# ---------------------------------------------------------------- the language
prop("L01", "Control flow follows the structure of the program",
     "Every program executes its statements in the order its if, elseif, else, while, for, for-in, break, continue and return statements prescribe, at every nesting and with local variables declared before, inside and after each construct. A jump leaves exactly the constructs it names, affects no variable outside of them and loses no value, and a jump outside of any loop is a SyntaxError.",
     ["inputs"], "every nest of control statements, every place of a jump in it, and every set of locals in scope at the jump",
     "the tests hold a few loops with one jump each; which locals are live at the jump and which construct surrounds it decide whether the stack is restored",
     ["compiler/compiler.c", "compiler/parser.c", "interpreter/VM.c"],
     [me("jump targets, checkpoints, locals released at jumps", "compiler/compiler.c: visit_While, visit_ForIter, visit_Break, visit_Continue, enter_scope, exit_scope"), me("loop frames", "interpreter/VM.c: O_INITFOR, O_ENDFOR, O_ITER_1")],
     note="all statement nests within the budget, against the direct evaluator")
prop("L02", "Variables are lexically scoped and closures share them",
     "Every use of a name refers to the innermost enclosing declaration, each execution of a declaration makes a new variable, and all closures over one execution of a declaration and the enclosing code see each other's assignments to it, also after its scope ended. Using an undeclared name, redeclaring a name in its own scope and assigning to a constant are refused with a SyntaxError, however many variables there are.",
     ["inputs", "histories"], "every nesting of blocks, functions and loops, every choice of captured variables and of the order in which closures are made, called and dropped",
     "the tests have a handful of closures over one or two variables; order of capture, lifetime and position of the variable on the stack decide the outcome",
     ["compiler/compiler.c", "compiler/env.c", "interpreter/upvalue.c", "interpreter/closure.c", "interpreter/VM.c"],
     [me("resolution of names to slots, upvalues, globals", "compiler/compiler.c: load_var, store_var, env_resolve_upval"), me("open upvalues, closing", "interpreter/VM.c: add_upvalue, vm_close_all"), me("scopes", "compiler/env.c")],
     note="all closure programs within the budget, against an evaluator with environments instead of stack slots")
prop("L03", "match takes the first arm that fits and binds what it names",
     "A match statement executes exactly the first arm whose pattern describes the value and whose guard, if any, is true, with the names in the pattern bound to the corresponding parts, and nothing if no arm fits. Matching changes neither the matched value nor any other variable, whatever arm is taken and however it is left.",
     ["inputs"], "every pattern, value and guard within the bound, and every jump out of an arm",
     "patterns nest; whether a failing sub-pattern unwinds correctly depends on where in the nest it fails and which bindings precede it",
     ["compiler/compiler.c", "compiler/parser.c", "interpreter/VM.c"],
     [me("patterns compiled to tests of the value on the stack", "compiler/compiler.c: visit_Match, visit_pattern*; interpreter/VM.c: vm_MATCH_*")],
     note="all patterns within the size bound × all values of the universe")
prop("L04", "Calls bind arguments and deliver results by position",
     "A call evaluates the function and its arguments once from left to right, binds argument k to parameter k with missing ones undef and excess ones dropped, and delivers its results likewise: one where one is expected, all of them where the call is the last in an argument, return or assignment list. Calls nest in any position of an expression without disturbing the values around them.",
     ["inputs"], "every arity of definition and call, every nesting of calls in every expression context",
     "the stack effect of a call depends on its context; tests exercise a call in a few contexts",
     ["compiler/compiler.c", "interpreter/VM.c"],
     [me("call frames, number of expected results", "interpreter/VM.c: vm_INIT_CALL, vm_CALL, vm_RET, vm_exitframe_multi; compiler/compiler.c: visit_Call, expected returns")],
     note="all call trees within the bound in all contexts")
prop("L05", "Operators dispatch to the overloads in metatables",
     "An operator, len, a call, an index read or write, or a method call on a value with a metatable uses the entry for it in that metatable (the left operand's, if there are two), passes it the operands in order and yields exactly what it returns, also for elements compared inside lists and tables. Without such an entry the built-in meaning applies or a TypeError is raised, and no operand is lost or leaked either way.",
     ["inputs"], "every operator × every pair of plain and overloaded operands × every kind of entry",
     "tests overload a few operators in one class; which operand carries the entry and what the entry is decide the dispatch",
     ["interpreter/VM.c", "interpreter/YASL_Object.c", "std/yasl-std-mt.c"],
     [me("lookup along metatables, calls of overloads", "interpreter/VM.c: vm_lookup_method_helper, vm_call_binop_method_now, vm_INIT_CALL, vm_GET, vm_SET")],
     note="all operator × operand-kind × entry-kind combinations")
prop("N01", "Int and float arithmetic follow the documented rules",
     "For every pair of operands each arithmetic, bitwise and comparison operator yields the documented value: ints wrap in two's complement, an int and a float give the float operation on both, / is always the float quotient, // and % truncate and raise DivisionByZeroError for zero, and bitwise operators accept only ints. Every other combination of operand types raises a TypeError.",
     ["inputs"], "every operator × every pair of boundary values of every type",
     "boundary pairs (smallest int with -1, 2^53, NaN, signed zeros) are hundreds of combinations per operator; tests hold a few",
     ["interpreter/VM.c", "interpreter/YASL_Object.c"],
     [me("numeric operators", "interpreter/VM.c: vm_int_binop, vm_num_binop, vm_fdiv, vm_idiv, vm_modulo, vm_pow, vm_comparisons")],
     note="all operators × all pairs from a boundary universe, results compared bit for bit")
prop("N02", "Equality and order of numbers are those of their exact kind",
     "Among all numbers except NaN, == is reflexive, symmetric and agrees between an int and a float exactly when the float conversion of the int is equal, === additionally requires the same type, and < <= > >= are consistent with one another and with ==. NaN is unequal to and unordered against everything.",
     ["inputs"], "all pairs and triples of boundary numbers",
     "laws over triples are not sampled by any test",
     ["interpreter/VM.c", "interpreter/YASL_Object.c"],
     [me("comparison", "interpreter/YASL_Object.c: isequal; interpreter/VM.c: vm_EQ, vm_comparisons")],
     note="all pairs and triples from the boundary universe")
prop("N03", "Numbers survive the way between text and value",
     "A number literal or the result of toint or tofloat on a text denotes exactly the number it spells (decimal, hexadecimal, binary, digit separators, exponent), a text that spells none gives undef and a literal out of range is refused or saturates as documented. Printing a number and reading the text back gives the number again to the printed precision.",
     ["inputs"], "every text over the alphabet of number characters up to the bound, and every boundary value",
     "tests hold well formed literals; the malformed and boundary texts are far more",
     ["compiler/lexer.c", "interpreter/YASL_Object.c", "interpreter/str_methods.c", "interpreter/int_methods.c", "interpreter/float_methods.c"],
     [me("lexing numbers", "compiler/lexer.c: lex_eatnumber"), me("conversions", "interpreter/str_methods.c: str_tofloat, str_toint; util/ parsing")],
     note="all texts over the alphabet up to the bound")
prop("E01", "Folding constants never changes what a program does",
     "An expression has the same value, type, error and effect on control flow whether its operands are written as literals, constants, variables or parameters, in every context it can appear in.",
     ["inputs"], "every operator tree within the bound × every choice of operand values × every way to supply each operand × every context",
     "tests write expected results for a few literal expressions; they never compare the folded and the unfolded evaluation",
     ["compiler/compiler.c", "compiler/middleend.c", "compiler/parser.c", "interpreter/VM.c"],
     [me("constant folding", "compiler/middleend.c"), me("the same operators at run time", "interpreter/VM.c")],
     note="all operator trees within the bound, literals against variables, compared bit for bit")
prop("E02", "Operators bind as documented",
     "Every unparenthesised sequence of operators, prefix operators, conditionals, calls, indexing and member accesses denotes the grouping given by the documented precedence and associativity.",
     ["inputs"], "every sequence of operators within the bound",
     "there are thousands of adjacent operator combinations; tests cover a few dozen",
     ["compiler/parser.c", "compiler/lexer.c"],
     [me("precedence climbing by recursive descent", "compiler/parser.c: parse_expr ... parse_power, parse_call")],
     note="all operator sequences of length 3 (quick) and 4 (thorough)")
prop("P01", "Every text is either accepted or refused with a SyntaxError",
     "Whatever text is given as a program, compiling it ends: either it is accepted and runs, or it is refused with status and message SyntaxError before any of it has run. No text makes the compiler read or write outside of its memory, hang, or keep memory.",
     ["inputs"], "every sequence of tokens and of bytes within the bound in every context, every edit of programs holding every construct",
     "malformed programs outnumber well formed ones; tests hold a few dozen",
     ["compiler/lexer.c", "compiler/parser.c", "compiler/compiler.c", "compiler/ast.c"],
     [me("error recovery and ownership of names and nodes", "compiler/parser.c: eattok, handle_error; compiler/ast.c: node_del"), me("tokens", "compiler/lexer.c: gettok")],
     note="all token triples, byte triples and single edits, on the real compiler under AddressSanitizer and heap accounting")
prop("S01", "Every str method computes what it says on every string",
     "Searching, counting, splitting, joining, replacing, trimming, repeating, case conversion, classification and comparison give the textbook result for every string and argument, byte for byte, however the strings came about (literal, joined, cut out of another). They leave their operands, and every string cut out of them earlier, unchanged.",
     ["inputs", "histories"], "every pair of strings over a small alphabet within the bound × ways to make them × every method; every byte; every history of methods within the bound",
     "tests use one or two strings per method; overlaps, cut strings and repeated or empty needles are where such code goes wrong",
     ["data-structures/YASL_String.c", "interpreter/str_methods.c", "interpreter/YASL_Object.c"],
     [me("strings shared with the text they were cut out of", "data-structures/YASL_String.c: YASL_String_new_substring"), me("searching and replacing by rolling hash and memcmp", "data-structures/YASL_String.c: YASL_String_replace_fast, YASL_String_count, YASL_String_split, YASL_String_trim")],
     note="all string pairs within the bound, in 6 representations, on the real interpreter")
prop("S02", "Indexing and slicing select exactly the elements the bounds name",
     "An index names the element that far from the front or, if negative, from the back, and is refused with a ValueError outside of the sequence; a slice holds exactly the elements from its first bound up to its second, with missing bounds meaning the ends and bounds past an end meaning that end. Cutting and reading leave the sequence as it was, a slice of a list is a list of its own, and a bound that is not an int is a TypeError.",
     ["inputs"], "every length, every pair of bounds and every index within the range, and the extreme ints, for lists and strings made in several ways",
     "tests try a few bounds; negative, reversed, absent and extreme ones combine",
     ["interpreter/VM.c", "interpreter/list_methods.c", "interpreter/str_methods.c", "compiler/parser.c", "compiler/compiler.c"],
     [me("slices", "interpreter/VM.c: vm_SLICE_list, vm_SLICE_str"), me("indices", "interpreter/list_methods.c: list___get, list___set; interpreter/str_methods.c: str___get")],
     note="all bounds, on the real interpreter")
# ---------------------------------------------------------------- the C API
prop("A01", "The C API is a stack machine with the documented effects",
     "Every sequence of pushes, pops, peeks, duplications, container operations, metatable operations and calls made through yasl.h leaves exactly the values on the stack that the documentation of each function says, and returns what it documents, for values of every type. A pop or peek of a value of another type yields the documented default, a failed operation reports its error and leaves the stack usable, and every userdata's destructor runs exactly once.",
     ["inputs", "histories"], "every sequence of API operations up to the bound, in a native function and at top level, with values of every type",
     "the tests call each function in one way on one type; the effect on the rest of the stack, and on values of other types, shows only in sequences",
     ["yasl.c", "yasl.h", "yasl_aux.c", "yasl_aux.h", "interpreter/VM.c", "interpreter/refcount.c"],
     [me("pushes, pops, peeks", "yasl.c: YASL_push*, YASL_pop*, YASL_peek*, YASL_duptop"), me("containers and metatables", "yasl.c: YASL_listpush, YASL_tableset, YASL_tableget, YASL_tablenext, YASL_setmt, YASL_loadmt"), me("calls", "yasl.c: YASL_functioncall"), me("checked accessors", "yasl_aux.c: YASLX_checkn*")],
     note="all operation sequences within the bound against a stack of model values")
# ---------------------------------------------------------------- the library
prop("X01", "Library functions accept exactly the arguments they are documented for",
     "Every function and method of the library, called with any number of arguments of any type, either returns a result of its documented type or raises the documented TypeError or ValueError, whose text names a wrong argument's position and actual type truthfully. Beyond a method's stated effect on its first argument a call changes no argument and no other variable, missing arguments count as undef and surplus ones make no difference, and it gives the same result for temporaries and variables, as a function and as a method, without leaking or touching freed memory.",
     ["inputs"], "every library function × every tuple of arguments from a universe holding every type and boundary value × three ways to pass them",
     "there are over a hundred functions and dozens of kinds of arguments; tests pass a wrong type to one position of some",
     ["interpreter/str_methods.c", "interpreter/list_methods.c", "interpreter/table_methods.c", "interpreter/int_methods.c", "interpreter/float_methods.c", "interpreter/bool_methods.c", "interpreter/undef_methods.c", "std/yasl-std-collections.c", "std/yasl-std-io.c", "std/yasl-std-math.c", "std/yasl-std-mt.c", "std/yasl-std-require.c", "yasl_aux.c"],
     [me("argument checks", "yasl_aux.c: YASLX_checkn*; interpreter/*_methods.c: YASLX_checkn*"), me("argument counts, results of native functions", "interpreter/VM.c: vm_CALL_cfn")],
     observe=("echo output", "status code of YASL_execute", "error text"),
     note="all tuples of arguments within the bound against a table of signatures, temporaries against variables")
prop("I01", "Files hold exactly the bytes written to them",
     "After any history of opening, reading, writing, seeking, flushing and closing, a file holds exactly the bytes the history puts there, reading yields exactly the bytes at the current position, and each operation returns what it documents. A file is closed exactly once, whether by hand or because nothing refers to it any more, using a closed file is a ValueError, and if the device fails some operation says so.",
     ["histories", "faults"], "every history of file operations within the bound in every mode and on several contents; every choice of failing device accesses",
     "tests read and write one small file; nul bytes, positions, modes and failures are not covered",
     ["std/yasl-std-io.c", "interpreter/userdata.c"],
     [me("io.open and the methods of files", "std/yasl-std-io.c: YASL_io_open, YASL_io_read, YASL_io_write, YASL_io_seek, YASL_io_close, close_file")],
     observe=("echo output", "bytes of the files", "status code of YASL_execute"),
     note="all histories within the bound against byte arrays; all fault choices on a simulated device")
# ---------------------------------------------------------------- errors
prop("R01", "An error reports its class, its line and the calls that led to it",
     "A program that fails returns the status code of its error's class and prints, after all output from before the error, one description that begins with the class's name and names the line of the statement it comes from, whatever the text before that statement looks like. The lines of the calls that were active follow, innermost first, none missing and none invented, and malformed programs are rejected with the line of the malformed statement before anything of them runs.",
     ["inputs"], "every kind of failing or malformed statement, after every kind of text, in every nesting of calls and blocks within the bound",
     "tests compare the text of a few errors at the top of small programs; lines go wrong after particular texts, and calls in particular nestings",
     ["compiler/lexer.c", "compiler/parser.c", "compiler/compiler.c", "interpreter/VM.c"],
     [me("counting lines", "compiler/lexer.c: gettok; compiler/parser.c: nexttok_is"), me("lines of instructions", "compiler/compiler.c: the line table; interpreter/VM.c: vm_print_err"), me("unwinding", "interpreter/VM.c: vm_throw_err, vm_executenext")],
     observe=("error text", "echo output", "status code of YASL_execute"),
     note="all combinations within the bound; expected lines are counted while the program text is put together")
prop("R02", "An error releases everything the program held",
     "When an operation, a native function or an overload fails at any point of an expression, statement, iteration, match, comprehension or library call, the program ends there with that error, what it printed before is kept, and nothing after it runs. Every value, container and buffer that was alive at that point is released exactly once, none is used afterwards, and the state can still be inspected and deleted.",
     ["faults"], "every point of every construct at which something can fail × every kind of failure",
     "what is held at the moment of failure differs at every operand of every operation; tests fail at a handful of points and do not look at memory",
     ["interpreter/VM.c", "interpreter/list_methods.c", "interpreter/table_methods.c", "interpreter/str_methods.c", "std/yasl-std-collections.c", "yasl_aux.c", "yasl.c"],
     [me("unwinding", "interpreter/VM.c: vm_throw_err, vm_executenext, vm_exitframe"), me("buffers alive across calls", "interpreter/list_methods.c: list_tostr, list_join, list_sort; interpreter/table_methods.c: table_tostr; std/yasl-std-collections.c: set_tostr")],
     observe=("error text", "echo output", "status code of YASL_execute", "allocations still alive after YASL_delstate"),
     note="a fault is injected at every call of a host function placed in every operand position; address sanitizer and heap accounting watch each run")
prop("R03", "Running out of stack is an error like any other",
     "Whichever operation needs more stack slots or calls than are left, and however few are left, the program ends with StackOverflow, keeps what it printed before, releases everything it held and touches no memory outside its own. With enough room the result does not depend on how much of the stack is in use, and every endless recursion, through functions, methods, overloads, callbacks or conversions, ends this way.",
     ["faults"], "every construct × every amount of room left on the stack within the bound; every form of endless recursion",
     "one test recurses forever through one plain call; each instruction and native function has its own way to need the last slot",
     ["interpreter/VM.c", "interpreter/VM.h", "yasl.c", "yasl_aux.c", "interpreter/list_methods.c", "interpreter/table_methods.c"],
     [me("checks for room", "interpreter/VM.c: vm_push, vm_enterframe, vm_MATCH_subpattern"), me("recursion", "interpreter/VM.c: vm_CALL_fn, vm_CALL_cfn, vm_stringify_top")],
     observe=("error text", "echo output", "status code of YASL_execute", "allocations still alive after YASL_delstate"),
     note="all amounts of room within the bound, under address sanitizer and heap accounting")
prop("G01", "Programs work at every size, or are refused",
     "A program built from any number of variables, parameters, captured variables, constants, operands, branches, arms, elements, nested functions, loops or blocks behaves as the same program at small size does, up to the documented limits of the bytecode. Where a limit is exceeded the program is refused with a SyntaxError or ends with StackOverflow; it never runs with a wrong variable, constant, jump target or element, and the compiler touches no memory outside its own.",
     ["inputs"], "every size from 1 up to the bound, and every size around the powers of two at which encodings change, of every kind of construct that can be repeated or nested",
     "tests are a few lines long; encodings of one byte, tables that grow and recursion over long lists only go wrong at sizes nobody writes by hand",
     ["compiler/compiler.c", "compiler/parser.c", "compiler/env.c", "compiler/ast.c", "interpreter/VM.c"],
     [me("indices of variables and captured variables", "compiler/env.c: env_decl, env_resolve_upval_index; compiler/compiler.c: visit_FunctionDecl"), me("lengths of jumps and of code", "compiler/compiler.c: enter_conditional_false, exit_conditional_false"), me("freeing programs", "compiler/ast.c: node_del")],
     observe=("echo output", "error text", "status code of YASL_execute", "allocations still alive after YASL_delstate"),
     note="all sizes within the bound under address sanitizer, against output that is written down together with the program")
prop("E03", "Operands are evaluated once, in order, and only if needed",
     "In every expression and statement each operand is evaluated exactly once, from left to right, before the operation it belongs to is carried out, and &&, ||, ??, ?: and their assignment forms evaluate only the operands their result depends on. An operand sees the assignments made by the operands before it and none made by those after it, and when an operation fails, everything before it has happened and nothing after it does.",
     ["inputs"], "every tree of operations within the bound × operands of every truth value, some of which assign to a variable others read × every place an expression can stand",
     "tests use operands without effects, so a wrong order, a repeated or a missing evaluation shows nowhere",
     ["compiler/compiler.c", "compiler/parser.c", "compiler/middleend.c", "interpreter/VM.c"],
     [me("order of code for operands", "compiler/compiler.c: visit_BinOp, visit_TriOp, visit_Call, visit_MethodCall, visit_Set, visit_Slice"), me("short circuits", "compiler/compiler.c: visit_BinOp (T_DAMP, T_DBAR, T_DQMARK), visit_TriOp"), me("several targets", "compiler/parser.c: parse_multi_assign")],
     observe=("echo output", "status code of YASL_execute"),
     note="all trees within the bound; traces are compared with those of a reference evaluator")
prop("P02", "Layout and names make no difference",
     "Blanks, tabs and comments between tokens, newlines where a statement cannot end, ending statements with newlines or semicolons, renaming variables and reading the program from memory or a file change nothing about what a program does. In particular no comment or string is taken for code or code for a comment, and no token is split or joined.",
     ["inputs"], "every gap between tokens of programs that use the whole syntax × every filling, alone, in pairs and throughout; every naming scheme",
     "every program in the tests is laid out one way; the lexer looks ahead and back by position, and the parser by tokens, differently at each token",
     ["compiler/lexer.c", "compiler/parser.c", "compiler/lexinput.c"],
     [me("white space and comments", "compiler/lexer.c: lex_eatwhitespace, lex_eatcommentsandwhitespace"), me("longest match of operators, numbers and names", "compiler/lexer.c: lex_eatop, lex_eatint, lex_eatfloat, lex_eatid"), me("line breaks in lists, tables, blocks", "compiler/parser.c: eatline-like loops, nexttok_is")],
     observe=("echo output", "status code of YASL_execute", "class of the error text"),
     note="all fillings within the bound; each version is run and compared with the first")
prop("P03", "String literals are exactly the bytes they spell",
     "A text between quotes of any of the three kinds denotes exactly the bytes written there, with the documented escapes replaced, whatever bytes they are, however many, and wherever in a program the literal stands, as a value, key or pattern; lines after it keep their numbers. Text that is not well formed, with an unknown or incomplete escape or a line break inside of single or double quotes, is refused with a SyntaxError before anything runs.",
     ["inputs"], "every sequence of units of text within the bound × every kind of quotes × every use; every byte after a backslash; every pair of bytes after \\x; every length around the sizes of buffers",
     "tests use a few literals with the common escapes; nuls, quotes of the other kinds, bytes above 127, malformed escapes and lengths at which buffers grow are not among them",
     ["compiler/lexer.c", "compiler/parser.c", "compiler/compiler.c"],
     [me("reading strings", "compiler/lexer.c: lex_eatstring, lex_eatinterpstring, lex_eatrawstring, handle_escapes"), me("constants for strings", "compiler/compiler.c: visit_String, compiler_intern_string")],
     observe=("echo output", "values compared with those given through the API", "status code of YASL_execute", "line in the error text"),
     note="all texts within the bound against an independent decoder")
prop("L06", "Loops and comprehensions visit every element exactly once",
     "A for loop or comprehension over a list or str visits its elements in order, over a table each of its keys once, whatever history made the collection, evaluates the collection once and keeps it alive while the loop runs. Nested loops and comprehensions over the same or different collections, leaving them by break, continue or return, and calls that loop themselves do not disturb each other, and a comprehension yields what the loop it abbreviates would.",
     ["inputs", "histories"], "every collection made by a history within the bound × every way to visit it; every nest of loops and comprehensions within the bound",
     "tests iterate a few small collections; gaps left by removed keys, collections that are temporaries and loops left halfway through several levels are not covered",
     ["interpreter/VM.c", "compiler/compiler.c", "compiler/parser.c"],
     [me("stepping through a collection", "interpreter/VM.c: vm_ITER_1, O_INITFOR, O_ENDFOR"), me("code of loops and comprehensions", "compiler/compiler.c: visit_ForIter, visit_Comp"), me("leaving loops", "compiler/compiler.c: visit_Return, visit_Break; interpreter/VM.c: vm_exitframe")],
     observe=("echo output", "status code of YASL_execute"),
     note="all histories and nests within the bound, against recorded elements and a reference evaluator, under address sanitizer")
# ---------------------------------------------------------------- several pieces of code, several states
prop("M01", "Modules run apart and share only what they export",
     "require runs the named module from its beginning in a scope of its own and yields the value it exports; nothing else it declares is visible outside, and nothing the requiring program declares is visible in it. What it exports keeps working, with its own variables and its own line numbers, as long as anybody holds it, through any graph of modules that require each other when loaded or later. A module that cannot be found, is malformed or fails raises one error at the require that says why, and leaves libraries, output and memory as they were.",
     ["histories"], "every graph of modules within the bound × every sequence of requires and uses of exports; every kind of export and of failure × every place a require can stand",
     "tests require two fixed modules once; what a module leaves behind in tables of constants, globals, libraries and line tables shows only with several modules in use at once",
     ["interpreter/VM.c", "std/yasl-std-require.c", "std/yasl-std-require.h", "yasl.c", "compiler/compiler.c"],
     [me("running a module", "std/yasl-std-require.c: YASL_require; yasl.c: YASL_execute"), me("code and constants of each module", "interpreter/VM.c: vm_executenext, struct VM headers; vm_EXPORT")],
     observe=("echo output", "error text", "status code of YASL_execute", "allocations still alive after YASL_delstate"),
     note="all graphs, sequences and placements within the bound against output predicted from the graph; address sanitizer and heap accounting")
prop("A02", "States do not influence each other",
     "Any number of states may exist in one process. However creating, running and deleting them is interleaved, in one thread or in several, every program prints, returns and fails exactly as it would alone, and deleting one state leaves the others as they were.",
     ["schedules"], "every pair of programs within the bound × every interleaving of their steps, of the creation and of the deletion of their states",
     "tests never hold two states at once; anything kept outside the state is shared silently",
     ["yasl.c", "interpreter/VM.c", "compiler/lexer.c", "compiler/parser.c", "compiler/compiler.c", "interpreter/list_methods.c"],
     [me("all data hangs off the state", "yasl_state.h: struct YASL_State; interpreter/VM.h: struct VM"), me("creating and deleting", "yasl.c: YASL_newstate_num, YASL_delstate; interpreter/VM.c: vm_init, vm_cleanup")],
     observe=("echo output", "error text", "status code of YASL_execute", "allocations still alive after YASL_delstate"),
     note="all schedules within the stated number of preemptions under a controlled scheduler, each run compared with the programs run alone")
prop("A03", "A state runs one piece of code after another",
     "When one state is given one piece of code after another, by the session of the interactive tool or by YASL_resetstate, each piece sees the variables, constants and functions that earlier pieces declared and the values they have now. Functions, closures and methods from earlier pieces go on working, with their own lines, and a piece that is malformed or fails, in whatever way and depth, reports its error, undoes nothing that happened before it and leaves the state ready for the next piece.",
     ["histories"], "every sequence within the bound of pieces that declare, assign, define, call, require, print and fail",
     "tests start a fresh state for every program; whatever one piece of code leaves behind in a state is seen only by the next one",
     ["yasl.c", "interpreter/VM.c", "compiler/compiler.c", "main.c"],
     [me("running in an existing state", "yasl.c: YASL_resetstate, YASL_execute_REPL, YASL_execute"), me("leaving frames after an error", "interpreter/VM.c: vm_throw_err, vm_exitframe"), me("code of earlier pieces", "interpreter/VM.c: vm_init_buffer, vm_cleanup")],
     observe=("echo output", "error text", "status code of YASL_execute", "allocations still alive after YASL_delstate"),
     note="all sequences within the bound against a model of the session's variables; address sanitizer and heap accounting")
prop("C01", "The command line tool does what the library does",
     "A program prints the same output and errors and ends with the status its outcome stands for, whether it is run from a file, with -e or -E, compiled with -C, or entered line by line in the interactive session. Its arguments are in args exactly as given, unknown or incomplete options are refused without running anything, and the session ends when its input does or when it is told to.",
     ["inputs"], "every program of a pool that covers the language × every way to run it; every list of arguments, every combination of options and every session within the bound",
     "the test driver runs files only, without arguments, options or a session",
     ["main.c", "yasl.c"],
     [me("ways to run", "main.c: main_file, main_command, main_command_REPL, main_compile, main_REPL"), me("choosing one", "main.c: main")],
     observe=("standard output", "standard error", "exit status"),
     note="all combinations within the bound; the real main function runs in a child process and is compared with the library")
prop("N04", "The math library computes the functions it names",
     "Every function of math, for every int and float and every number of arguments, returns the value of the mathematical function it names: exactly when the result is an int (max, min, gcd, lcm, isprime and the constants' counterparts), as the C library computes it when it is a float. max and min are the largest and smallest of any number of arguments, whatever their order and types; arguments without a defined result give undef.",
     ["inputs"], "every number of a pool with units, limits of exactness, limits of the types, infinities and nan × every function; every tuple, pair and range within the bound × every way to make the call",
     "tests call each function with two or three small numbers; rounding at the limits, composite numbers with large factors and negative numbers need ranges and boundaries",
     ["std/yasl-std-math.c"],
     [me("functions of one number", "std/yasl-std-math.c: DEFINE_MATH_UN_FLOAT_FUN, YASL_math_deg, YASL_math_rad"), me("exact int functions", "std/yasl-std-math.c: gcd_helper, is_prime, YASL_math_lcm"), me("any number of arguments", "std/yasl-std-math.c: YASL_math_max, YASL_math_min")],
     observe=("values returned by the functions of math", "status code of YASL_execute"),
     note="every combination within the bounds, compared with independent computations")
prop("O01", "Output arrives complete, in order and unchanged",
     "Whatever a program prints, by echo, io.stdout, io.stderr or as the text of an error that ends it, arrives byte for byte as the program made it, whatever its length, bytes and meaning to the C library's formatting, in the order the program printed it, including what was printed before an error. Captured as a string it is the same as written to a file, and reading the captured output does not change it or the run.",
     ["inputs", "histories"], "every text of the bound × every place where programs print texts × string or file; every sequence of operations that print, fail or read the output back",
     "tests print short plain texts to a string; long texts, percent signs, names in messages, mixed sources and reading back in between are not covered",
     ["yasl.c", "interpreter/VM.c", "util/IO.c", "std/yasl-std-io.c"],
     [me("echo", "interpreter/VM.c: vm_ECHO"), me("capture and printing", "yasl.c: YASL_setprintout_tostr, YASL_loadprintout; interpreter/VM.c: vm_print_err, vm_print_out; util/IO.c: io_print_string, io_print_file"), me("streams", "std/yasl-std-io.c: YASL_io_write")],
     observe=("captured output and errors", "contents of the files standard output and standard error were sent to", "status code of YASL_execute"),
     note="every text, place and sequence within the bounds, against the bytes the program put together")

prop("K01", "Compiling checks a program and does nothing else",
     "YASL_compile says of every program what running it would say about its form: 0 for a program that runs, the same status and error text for one that is refused. It runs no part of the program and prints nothing, and what was compiled can be run right after as if it had been run at once. Later pieces of code in the same state behave as if the compiled one had never been there.",
     ["inputs", "histories"], "every token sequence and program of the bound; every history of compiled, run and entered pieces in one state",
     "no test calls YASL_compile; the command line tool uses it for -C, once per process",
     ["yasl.c", "compiler/compiler.c", "compiler/parser.c"],
     [me("compiling", "yasl.c: YASL_compile; compiler/compiler.c: compile, return_bytes"), me("starting over", "yasl.c: YASL_resetstate_bb, reset_code")],
     observe=("status code of YASL_compile", "error text", "echo output", "allocations still alive after YASL_delstate"),
     note="each program is run, compiled, and compiled then run, in fresh states of the real library; sessions are compared with a model")
prop("B01", "A state has the libraries its host declared",
     "A host can declare the libraries of a state in any combination and order, repeatedly, and at any time. A program that uses a library that is declared works as always; one that names a library that is not is refused with a SyntaxError and nothing of it runs. What needs no library works without any, objects from a library keep working when it is declared again, and modules have the libraries whatever the state that requires them has.",
     ["histories", "inputs"], "every sequence of declarations and pieces of code within the bound",
     "tests and the command line tool declare all libraries, once, at the start",
     ["yasl_aux.c", "std/yasl-std-collections.c", "std/yasl-std-io.c", "std/yasl-std-math.c", "std/yasl-std-mt.c", "std/yasl-std-require.c", "yasl.c"],
     [me("declaring a library", "std/*.c: YASL_decllib_*; yasl_aux.c: YASLX_decllibs, YASLX_initglobal"), me("named metatables", "yasl.c: YASL_registermt, YASL_loadmt"), me("libraries of a module", "std/yasl-std-require.c: module_share, add_missing")],
     observe=("status code of YASL_execute", "echo output", "error text", "allocations and files still alive after YASL_delstate"),
     note="all sequences within the bound against a model of what is declared and kept; address sanitizer and heap accounting")
