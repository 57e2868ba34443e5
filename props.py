#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: one entry per property, claimed iff harness/<id>_*.c exists."""
import re, json, glob, os
HERE = os.path.dirname(os.path.abspath(__file__))
T = "The tests run a fixed list of scripts and unit cases with concrete values; "
P = []
def p(id, title, statement, over, q, why, files, mech, observe=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, observe=list(observe), na=na))
VM, CC, LX, PA, ME, EN = "interpreter/VM.c", "compiler/compiler.c", "compiler/lexer.c", "compiler/parser.c", "compiler/middleend.c", "compiler/env.c"

p("P01", "Integer operators are exact two's-complement operations",
  "For every pair of 64-bit ints, + - * & | ^ &^ << >> // % and the comparisons, written as operator or as augmented assignment, give the two's-complement (truncating for // and %, arithmetic for >>) result as an int, and comparisons give the mathematical order. Dividing or taking the remainder by zero is reported as a divide-by-zero error and nothing else traps. Powers of ints with a non-negative exponent are exact whenever the result fits.",
  ["inputs"], "all values of both operands", T + "a wrong result for one of 2^128 operand pairs (sign, overflow, INT_MIN) is not on the list.",
  [VM, CC, "interpreter/YASL_Object.c"], [("int binary operators", VM + ":vm_int_binop, vm_num_binop"), ("division guards", VM + ":vm_executenext O_IDIV/O_MOD"), ("comparison", VM + ":vm_LT..vm_GE")], ["globals after execution", "status of execution"])
p("P02", "Float and mixed arithmetic, equality and ordering follow IEEE double",
  "For every pair of ints and floats, an operator with at least one float operand gives the IEEE-754 double result of converting the int operand to a double, / always gives a float, and int op int stays an int. Equality and the four orderings agree with IEEE comparison after the same conversion (NaN is unequal to everything and unordered), while === also distinguishes int from float.",
  ["inputs"], "all bit patterns of both operands", T + "rounding, NaN, signed zero and infinity cases over 2^128 pairs are not reached.",
  [VM, "interpreter/YASL_Object.c"], [("numeric operators", VM + ":vm_num_binop, vm_fdiv, vm_pow"), ("comparison", VM + ":vm_LT.., isequal")], ["globals after execution"])
p("P03", "Constant folding never changes what a program computes",
  "An expression whose operands are literals has the same value, type, and error (including division by zero and type errors) as the same expression over variables holding those values. This holds for every operator, for nested expressions, and for conditions whose truth is known at compile time.",
  ["programs", "inputs"], "all operators, all literal values, int/float/bool combinations", T + "each literal program is compared with one expected output; folded and unfolded evaluation are never compared over the values.",
  [ME, CC, VM], [("folding", ME + ":fold_BinOp, fold_UnOp"), ("dead branches", CC + ":visit_If, visit_While")], ["globals after execution", "status of execution"])
p("P04", "Truthiness, short circuits and type errors depend on the values alone",
  "Exactly undef, false, the empty str and NaN are falsey; !, &&, ||, ??, ?:, if and while agree on this, evaluate their right operand only when needed and yield the operand itself. Applying an operator to operands of types it does not support is reported as a type error without any other effect, for every combination of operand types.",
  ["inputs", "programs"], "all pairs of value types, all values", T + "a handful of type pairs per operator are listed.",
  [VM, CC, "interpreter/YASL_Object.c"], [("truth", "interpreter/YASL_Object.c:isfalsey"), ("short circuit", CC + ":visit_BinOp_shortcircuit"), ("operator dispatch", VM + ":vm_int_binop, vm_num_binop, vm_lookup_method_throwing")], ["globals after execution", "status of execution"])
p("P05", "Indexing, slicing and iterating a str select exactly the addressed bytes",
  "For every str and every index, s[i] is the byte at i (counting from the end when negative) and an index outside the str is a value error; s[a:b] is the bytes from a up to b with omitted, negative and too large bounds normalised, empty when the range is. A substring behaves in every operation exactly like a freshly built str of the same bytes, including iteration, comparison, concatenation, length and use as a table key.",
  ["inputs", "histories"], "all byte contents, indices and nested slices", T + "strings that share storage with another str are only tested at a few offsets.",
  ["data-structures/YASL_String.c", VM, "interpreter/str_methods.c"], [("shared substrings", "data-structures/YASL_String.c"), ("slice", VM + ":vm_SLICE_str"), ("index", "interpreter/str_methods.c:str___get"), ("iteration", VM + ":vm_ITER_1")], ["globals after execution"])
p("P06", "str searching, replacing, splitting, counting and trimming match a byte-wise model",
  "search, count, replace (with and without a limit), split (by separator and by whitespace), startswith, endswith, ltrim, rtrim and trim give what a left-to-right, non-overlapping byte-wise scan gives, for every haystack and argument including empty and overlapping ones. They never change their operands and always terminate.",
  ["inputs"], "all byte contents of haystack, needle and replacement", T + "self-overlapping needles, empty results and boundary matches are sampled a few times each.",
  ["data-structures/YASL_String.c", "interpreter/str_methods.c"], [("algorithms", "data-structures/YASL_String.c"), ("argument handling", "interpreter/str_methods.c")], ["globals after execution"])
p("P07", "str case mapping, character predicates, repetition and conversions are per-byte exact",
  "toupper and tolower change exactly the ASCII letters, the is* predicates are true iff every byte of the str is in the class, and rep concatenates the str the requested number of times. toint and tofloat of the text of an int or a non-negative float literal give the number that text denotes.",
  ["inputs"], "all byte values and short contents", T + "single characters at class borders and odd digits are not sampled.",
  ["data-structures/YASL_String.c", "interpreter/str_methods.c", "interpreter/int_methods.c", "util/yasl_float.c"], [("case and predicates", "interpreter/str_methods.c"), ("number parsing", "data-structures/YASL_String.c:YASL_String_toint, YASL_String_tofloat, YASL_ParseFloat")], ["globals after execution"])
p("P08", "A list behaves as a mathematical sequence under every history of operations",
  "After any sequence of indexing, assignment, push, pop, concatenation, slicing, copying, reversing, clearing, searching, counting, inserting, joining and comparing, a list holds exactly the elements the same operations leave in an array. Indices count from the end when negative, out-of-range accesses are value errors that change nothing, and copies and slices are independent of the original.",
  ["histories", "inputs"], "all operation sequences and element values up to a length", T + "sequences that cross a growth boundary, or mix removal with growth, are sampled.",
  ["data-structures/YASL_List.c", "interpreter/list_methods.c", VM], [("list storage", "data-structures/YASL_List.c"), ("methods", "interpreter/list_methods.c"), ("slice", VM + ":vm_SLICE_list")], ["list contents through the language and the C API"])
p("P09", "list.sort yields an ordered permutation",
  "Sorting a list of numbers or a list of strs leaves a permutation of its elements in ascending order, whatever the initial order and duplicates and whichever pivots are chosen. A list that is neither is rejected with an error and left a permutation of what it was.",
  ["inputs", "schedules"], "all element values, all pivot choices", T + "the pivot is random and the lists are few, so most paths through the partition never run.",
  ["interpreter/list_methods.c", "interpreter/YASL_Object.c"], [("quicksort", "interpreter/list_methods.c:sort"), ("order", "interpreter/YASL_Object.c:yasl_object_cmp")], ["list contents after the call"])
p("P10", "A table behaves as a finite map under every history of operations",
  "After any sequence of insertions, overwrites, removals, lookups, copies and clears, a table maps exactly the keys last given a value to that value, its length is the number of those keys, and a lookup of any other key finds nothing (the names of builtin methods, which denote those methods, aside). Iterating, keys and values yield every present key exactly once and nothing else, however the keys collide and however the storage has grown.",
  ["histories", "inputs"], "all operation sequences and all key values up to a length, including colliding keys", T + "probe chains through removed entries and resizes depend on which keys collide; the tests use a few keys.",
  ["data-structures/YASL_Table.c", "interpreter/table_methods.c", "util/hash_function.c"], [("open addressing with tombstones", "data-structures/YASL_Table.c"), ("methods", "interpreter/table_methods.c"), ("iteration", VM + ":vm_ITER_1")], ["table contents through the language and the C API"])
p("P11", "Sets implement mathematical set algebra",
  "A set contains exactly the elements added and not removed since, each once, its length is their number, and conversion to a list yields each of them once. Union, intersection, difference and symmetric difference give the mathematical result and leave their operands unchanged.",
  ["histories", "inputs"], "all small sets of ints, floats, bools and strs; all operation sequences up to a length", T + "collisions and removed entries inside a set are never produced on purpose.",
  ["data-structures/YASL_Set.c", "std/yasl-std-collections.c"], [("set storage", "data-structures/YASL_Set.c"), ("methods", "std/yasl-std-collections.c")], ["set contents through the language"])
p("P12", "Equal keys are one key, different keys are different keys",
  "Two hashable values of one type address the same table entry iff they compare equal: every spelling of a str (built, sliced, concatenated, interned by the compiler) and both float zeros count as one key. Values of different types are different keys, and mutable or undefined values are rejected as keys with a type error that leaves the table unchanged.",
  ["inputs"], "all pairs of key values", T + "hash and equality are never compared over all pairs.",
  ["util/hash_function.c", "data-structures/YASL_Table.c", "data-structures/YASL_String.c"], [("hash", "util/hash_function.c:hash_function"), ("key equality", "interpreter/YASL_Object.c:isequal_typed")], ["table contents through the language"])
p("P13", "Control flow executes exactly the statements its conditions select",
  "if/elseif/else, while loops, for loops with a step or over a collection, break, continue and return, arbitrarily nested, execute the statements that the structured semantics prescribe, for every outcome of the conditions. Leaving a block or loop by any route leaves every variable outside it untouched.",
  ["programs", "inputs"], "all condition outcomes and iteration counts up to a bound", T + "each shape is run for one or two outcomes.",
  [CC, PA, VM], [("jumps", CC + ":visit_If, visit_While, visit_ForIter, visit_Break, visit_Continue"), ("branches", VM + ":O_BR_8, O_BRF_8")], ["globals after execution"])
p("P14", "Names resolve to the innermost declaration and constants cannot be changed",
  "A name denotes the variable of the innermost enclosing scope that declares it, every variable keeps its own value however many are declared, and a variable is gone when its block ends. Assigning to a constant, redeclaring in one scope, or using an undeclared name is a syntax error and no statement of the program runs.",
  ["programs", "inputs"], "all values; program shapes with shadowing, many locals and many globals", T + "slots beyond the first few and shadowing across blocks are not sampled.",
  [EN, CC, VM], [("scopes", EN), ("variable access", CC + ":load_var, store_var, decl_var")], ["globals after execution", "status of execution"])
p("P15", "Closures share and outlive the variables they capture",
  "A closure reads and writes the very variable it captured: changes are visible to the enclosing function and to every other closure that captured it, at any nesting depth. After the variable's scope has ended it keeps its last value for those closures, and each activation of a scope creates a fresh variable.",
  ["programs", "histories", "inputs"], "all values; call orders up to a bound; nesting depths and capture orders enumerated in the harness", T + "capture order, number of captures and calls after scope end are sampled.",
  [VM, "interpreter/upvalue.c", "interpreter/closure.c", CC], [("open upvalue list", VM + ":add_upvalue, vm_close_upvals"), ("descriptors", CC + ":visit_FnDecl")], ["globals after execution"])
p("P16", "Calls bind arguments and return values positionally",
  "A call binds argument i to parameter i, fills missing ones with undef, ignores surplus ones, and yields exactly the number of values the context asks for from those the function returns. This holds for script functions, native functions with fixed or variable arguments, methods, spread arguments, recursion and higher-order use, and evaluation of arguments is left to right, each once.",
  ["programs", "inputs"], "all argument counts around the parameter count, all values", T + "surplus and missing arguments are sampled for few arities.",
  [VM, CC], [("frames", VM + ":vm_enterframe_offset, vm_fill_args, vm_exitframe_multi"), ("call sites", CC + ":visit_Call, visit_MethodCall, visit_VariadicContext")], ["globals after execution"])
p("P17", "Exhausting stack or call depth is a clean stack-overflow error",
  "Unbounded or too deep recursion, nesting of loops, argument lists or element lists ends with the stack-overflow status, never with a write outside the interpreter's memory. The state can still be inspected, reset and deleted afterwards without leak or double free.",
  ["programs", "inputs"], "recursion shapes and depths around the limits", T + "the limits are reached by one recursion test only.",
  [VM], [("stack check", VM + ":vm_push, vm_insert"), ("frame check", VM + ":vm_enterframe_offset"), ("loop check", VM + ":O_INITFOR")], ["status of execution", "memory"])
p("P18", "match takes the first arm whose pattern and guard accept the value",
  "A match statement runs the body of the first arm whose pattern matches the value structurally and whose guard is truthy, with every name in the pattern bound to the matching part, and no other body. Literal, type, list, table, variadic, alternative and wildcard patterns, arbitrarily nested, accept exactly the values they denote.",
  ["inputs", "programs"], "all values of the matched leaves; pattern shapes enumerated in the harness", T + "a failing inner pattern must skip the rest of the pattern; that is tested for few shapes.",
  [VM, CC, PA], [("pattern interpreter", VM + ":vm_MATCH_subpattern, vm_ff_subpattern"), ("pattern code", CC + ":visit_Match_helper")], ["globals after execution"])
p("P19", "Literals denote exactly the value their text spells",
  "Every int literal (decimal, hexadecimal, binary, with separators), float literal, str literal (all quote forms, escapes and interpolation), bool and undef literal evaluates to the value its text spells. Malformed literals are syntax errors, and an int literal beyond the largest int denotes the largest int.",
  ["inputs"], "all texts up to a length over the literal's alphabet", T + "digits, escapes and separators are sampled.",
  [LX, PA, "util/yasl_float.c"], [("number lexing", LX + ":lex_eatint, lex_eatfloat"), ("str lexing", LX + ":lex_eatstring, handle_escapes")], ["globals after execution", "status of execution"])
p("P20", "Any byte sequence is either compiled and run or rejected, never corrupting memory",
  "For every source text, compiling and running it ends with one of the documented statuses, without reading or writing outside allocated memory, using freed memory, or looping endlessly in the compiler. A text rejected as a syntax error runs none of its statements.",
  ["inputs", "programs"], "all byte strings up to a length, and all token sequences up to a length in several contexts", T + "hostile or truncated inputs are not among the scripts.",
  [LX, PA, CC, "compiler/lexinput.c"], [("lexer", LX), ("parser recovery", PA), ("compiler errors", CC + ":handle_error")], ["status of execution", "memory"])
p("P21", "Every allocation is released exactly once, whatever the outcome",
  "After a state is deleted, every block it allocated has been freed once (values kept alive only by a reference cycle aside), whether the program finished, failed at run time in the middle of any operation, or stopped at a limit. No value is freed while a variable, container, closure or native caller still holds it.",
  ["programs", "inputs", "histories"], "all values and error points reached by the harnesses; acyclic data", T + "no test checks memory; errors in the middle of an operation are rare in them.",
  ["interpreter/refcount.c", VM, "data-structures/YASL_List.c", "data-structures/YASL_Table.c", "interpreter/userdata.c"], [("reference counts", "interpreter/refcount.c"), ("stack slots own references", VM + ":vm_push, vm_rm_range")], ["heap at deletion"])
p("P22", "The embedding API keeps its stack contract under every history of calls",
  "Each push adds one value of the given type to the top, each peek leaves the stack unchanged, each pop or set removes exactly what it documents, and predicates and conversions describe the addressed value. Globals set from the host are what scripts see and the reverse, native functions receive their arguments in order, and a state can be reset and run repeatedly with globals preserved.",
  ["histories", "inputs"], "all sequences of API calls up to a length, all values", T + "the API unit tests are short fixed sequences.",
  ["yasl.c", "yasl_aux.c", VM], [("API", "yasl.c"), ("state", "yasl.c:YASL_execute, YASL_resetstate")], ["API results"])
p("P23", "Iteration visits every element once and comprehensions equal their loops",
  "A for loop over a list, table or str visits every element exactly once, in order for sequences, and ends, at any nesting depth and also across function calls. A list or table comprehension, with or without a condition, contains exactly what the equivalent loop would collect, and does not disturb other variables.",
  ["programs", "inputs"], "all elements and sizes up to a bound; nesting up to a bound", T + "nested and recursive iteration is sampled.",
  [VM, CC], [("iteration", VM + ":vm_ITER_1, O_INITFOR, O_ENDFOR, O_ENDCOMP"), ("comprehension code", CC + ":visit_Comp")], ["globals after execution"])
p("P24", "Converting a value to str and back preserves it",
  "The str of an int is its decimal text, of a bool true or false, of undef undef, of a list or table its elements' texts in order between brackets or braces; a self-containing list or table terminates. The str of a float is its value rounded to six decimals without trailing zeros. Reading the text of an int back as an int gives the same int, and of a float with at most six decimals the same float.",
  ["inputs"], "ints and floats in the stated ranges; nested shapes", T + "a few numbers are printed.",
  ["interpreter/int_methods.c", "interpreter/float_methods.c", "interpreter/list_methods.c", "interpreter/table_methods.c", "util/yasl_float.c"], [("stringification", VM + ":vm_stringify_top"), ("float text", "util/yasl_float.c:float64_to_str")], ["globals after execution", "printed output"])
p("P25", "Errors stop the program at the failing operation with the right status and line",
  "A run-time error ends execution at once with the status of its kind: no later statement runs, earlier effects stay, and the message names the source line of the failing statement and of each active call. assert fails exactly on falsey values, and the state remains usable afterwards.",
  ["programs", "inputs"], "which operation fails, at which line, at which call depth", T + "each message is tested at line one or two.",
  [VM, CC, "util/varint.c"], [("line table", CC + ":visit_Body line bytes; " + VM + ":vm_getcurrline"), ("throw", VM + ":vm_throw_err")], ["status of execution", "error output", "globals after execution"])
p("P26", "The size of a program does not change its meaning",
  "Number of constants, globals, locals, parameters, captured variables, elements and statements, and distance of jumps, do not change what each part of a program computes, up to documented limits that are reported as syntax errors. In particular the 256th constant, local or argument behaves as the first.",
  ["programs", "inputs"], "counts around every encoding boundary, all values", T + "programs with more than 127 or 255 of anything are absent.",
  [CC, "opcode.h", VM, "util/varint.c", "data-structures/YASL_ByteBuffer.c"], [("one- and eight-byte encodings", CC + ":visit_Integer, visit_String, O_LIT/O_LIT8"), ("line table encoding", "util/varint.c")], ["globals after execution", "status of execution"])
p("P27", "The math module computes the mathematical functions",
  "abs, max, min, gcd, lcm, sqrt, floor, ceil, isprime give the mathematically exact result wherever it is representable, on ints, floats and mixtures; wrong argument types are type errors. max and min return one of their arguments.",
  ["inputs"], "all arguments of the simple functions; bounded arguments of the number-theoretic ones", T + "few values per function.",
  ["std/yasl-std-math.c"], [("functions", "std/yasl-std-math.c")], ["globals after execution"])
p("P28", "File objects read back what was written",
  "Writing strs to a file and reading it back whole or line by line gives the same bytes, seeking addresses bytes, and a closed or unopenable file gives an error or undef, never a crash or double close. Every file is closed by the end of the state.",
  ["inputs", "histories"], "all contents and operation sequences up to a length", T + "one short file is used.",
  ["std/yasl-std-io.c"], [("file methods", "std/yasl-std-io.c")], ["globals after execution"])
p("P29", "Metatables override exactly the operators they define",
  "An operator applied to an object whose metatable defines it calls that function once with the operands in order and yields its result; operators the metatable does not define are type errors. Binary operators look only at the left operand's metatable, and == asks it only when both operands are of the same kind (table, list or userdata). Reading a field of an object finds the metatable's entry, then what its __get returns, then the table's own key; o(..), o.k = v, len o and conversion to str use __call, __set, __len and tostr. A metatable can be shared, changed and replaced at run time. Builtin methods are found for every builtin type, and the keys of a table with the builtin metatable shadow its methods.",
  ["programs", "inputs"], "all overloadable operators, all operand values, with and without the entry", T + "each overload is tested on one side with one value.",
  [VM, "interpreter/userdata.c", "std/yasl-std-mt.c"], [("method lookup", VM + ":vm_lookup_method_helper, vm_call_binop_method_now"), ("metatables", "std/yasl-std-mt.c")], ["globals after execution"])
p("P30", "Printing writes exactly the text of the value",
  "echo writes the text of its value (NUL bytes aside, which echo leaves out) followed by a newline, in program order, and output captured by the host equals what would have been written to the stream. Embedding any value in a str by interpolation or concatenation uses the same text.",
  ["inputs", "programs"], "all str contents and small ints; statement orders", T + "text with NUL bytes and long text is not sampled.",
  [VM, "util/IO.c", "yasl.c"], [("echo", VM + ":vm_ECHO"), ("capture", "util/IO.c")], ["captured output"])
p("P31", "Requiring a script module yields exactly what it exports",
  "require of a script module runs it once per call with variables of its own and yields exactly the value it exports, whose functions, closures, strs and constants keep working as long as they are used, also in later programs of the state. Everything else of the requiring program is as if the module were not there. A module that is missing, rejected by the compiler, failing or without export is an error at the require, leaks nothing and leaves the state usable.",
  ["programs", "inputs"], "exported values of every kind, all ways of requiring in the harness, all ints passed to the module's functions", T + "three modules are loaded.",
  ["std/yasl-std-require.c", VM, "yasl.c"], [("require", "std/yasl-std-require.c:YASL_require"), ("bytecode of modules", "yasl.c:set_code, " + VM + ":vm_cleanup")], ["globals after execution", "status of execution", "heap at deletion"])

p("P32", "Feeding a program to the REPL piece by piece computes what it says",
  "In REPL mode every text runs with the variables, constants, functions and closures that earlier texts left, echoes its last statement if that is an expression and nothing else, and reports its own status. A text that is rejected or fails at run time leaves the values of all variables as they were when it stopped, and later texts work.",
  ["histories", "inputs"], "all sequences of texts up to a length, all ints", T + "the REPL is tested with single texts.",
  ["yasl.c", CC, VM], [("REPL mode", "yasl.c:YASL_execute_REPL, YASL_resetstate_bb, reset_compiler; " + CC + ":compile_REPL"), ("globals", VM + ":vm_GLOAD_8, vm_GSTORE_8")], ["captured output", "status of execution", "globals after execution"])

LEVEL = "Every path of the real C code (compiled to LLVM bitcode from /repo on each run) reached from the harness is executed symbolically; each assertion is decided by z3 for all input values of the path, within the bounds in the evidence. Trusts the engine, its C library model (sampled paths are replayed natively and compared), clang -O0, z3."
TECH = "symbolic execution of the compiled C (LLVM IR) with SMT (z3): assertions decided for all values within bounds, counterexamples replayed natively"

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["q"]}, "why_tests_cant": x["why"],
                "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]], "observe_at": x["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for x in P:
        if x["na"]: na.append({"property": x["id"], "reason": x["na"]}); continue
        if not glob.glob(os.path.join(HERE, "harness", x["id"].lower() + "_*.c")):
            na.append({"property": x["id"], "reason": "no check built yet"}); continue
        checks.append({"property": x["id"], "quick_cmd": "python3 run.py %s --tier quick" % x["id"], "thorough_cmd": "python3 run.py %s --tier thorough" % x["id"], "technique": TECH, "level": "model_checking", "level_note": LEVEL})
    json.dump({"version": 1, "setup_cmd": "make -C engine -j8 OUT=$PWD/build", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo are needed: the harnesses drive the public API. props.py writes this file and properties.jsonl; DESIGN.md describes engine, bounds, findings and seeded changes."}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
def design():
    D = os.path.join(HERE, "doc")
    meth = dict(l.split(": ", 1) for l in open(os.path.join(D, "methods.txt")).read().splitlines() if l.strip())
    o = [open(os.path.join(D, "head.md")).read(), "## Properties\n\n(Bounds are those of the harness headers; evidence/<id>.json repeats them with the functions encoded, queries and solver time of the last run.)\n"]
    for x in P:
        o.append("### %s %s\n" % (x["id"], x["title"]))
        if x["na"]: o.append("Not applicable: %s.\n" % x["na"]); continue
        o.append("How: " + meth.get(x["id"], "") + "\n")
        for h in sorted(glob.glob(os.path.join(HERE, "harness", x["id"].lower() + "_*.c"))):
            t = open(h).read()
            f = lambda k: " ".join(re.findall(r"^// %s: *(.*)$" % k, t, re.M))
            o.append("- `%s` (%s). Bounds: %s.%s" % (os.path.basename(h)[:-2], f("vp"), f("bounds").rstrip("."), (" Outside: " + f("outside").rstrip(".") + ".") if f("outside") else ""))
        o.append("")
    o.append(open(os.path.join(D, "tail.md")).read())
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(o))

if __name__ == "__main__": main(); design()
