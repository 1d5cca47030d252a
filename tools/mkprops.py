#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, **anch):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, **anch)))

p("C01", "Computational operators on literals agree with their documented meaning",
  "Every application of a builtin computational operator (core, Boolean, arithmetic, string and conversion operators, including n-ary and nested forms) to literal arguments evaluates to exactly the value the user manual defines, with unbounded integers and rationals, bit-exact bitvectors of any width and Unicode strings. Where the manual says the operator does not evaluate (mixed categories, differing bitwidths, division by zero, out-of-range arguments, terms that failed to evaluate), it stays unevaluated and is not identified with any value.",
  ["inputs"], "all operators x all literal argument tuples (any magnitude, sign, width, length, code point) and nestings of them",
  "tests/*.eo fix a few dozen small operand tuples; the domain is infinite and the bugs sit at widths 0/1, negative indices, word-size boundaries, zero divisors, non-ASCII text.",
  ["src/literal.cpp", "src/util/bitvector.cpp", "src/util/integer.cpp", "src/util/rational.cpp", "src/util/string.cpp", "src/type_checker.cpp"])

p("C02", "List operators agree with their documented sequence and multiset meaning",
  "For every associative operator with a nil terminator (left or right associative, ground or type-parametric nil) and all lists over it, each builtin list operator (nil, cons, length, concatenation, indexing, finding, reversal, erasing, de-duplication, multiset inclusion, equality, difference, intersection and singleton elimination) returns exactly the list, element or number that the manual's definition over element sequences gives, preserving order and multiplicity. On arguments that are not lists of that operator, or indices out of range, it does not evaluate.",
  ["inputs"], "all list operators x all element sequences (with duplicates, nested lists, nil elements) x all associative operators with nil x non-list arguments",
  "The tests exercise each operator on two or three fixed lists of one or two operators; order, multiplicity and non-list behaviour are only settled over arbitrary sequences.",
  ["src/type_checker.cpp", "src/state.cpp"])

p("C03", "A proof step is accepted exactly when its rule derives its conclusion",
  "A step is accepted exactly when the supplied arguments and proven premises match the declared proof rule (argument patterns, premise patterns or premise list, requirements, explicit conclusion) under one consistent instantiation, and the conclusion so computed is syntactically the conclusion the step states, if it states one. Every other step, including any proof obtained from a valid one by changing a premise, its order, an argument, the rule or the stated conclusion so that it no longer follows, makes the checker reject the input.",
  ["inputs", "programs"], "all rule declarations in the documented grammar x all step applications, valid and corrupted",
  "The tests are fixed valid proofs plus a handful of expected failures; soundness is a statement about every proof, particularly invalid ones nobody wrote down.",
  ["src/state.cpp", "src/cmd_parser.cpp", "src/type_checker.cpp"])

p("C04", "Local assumptions are usable only inside their scope and discharged properly",
  "An assumption opened by assume-push, and every step and symbol introduced under it, is usable only until the step-pop that closes it; that step-pop hands its rule exactly the assumption that opened the innermost open scope, and its own conclusion is available afterwards in the enclosing scope. This holds for all nestings, interleavings with push and pop, and name reuse; step-pop without an open assumption is rejected, and an input (file or standard input) that ends with an assumption scope still open is rejected.",
  ["histories", "inputs"], "all sequences of assume, assume-push, step, step-pop, push, pop and declarations",
  "Tests contain a few shallow well-nested scopes; leaks of discharged assumptions only show on particular interleavings of scope commands and later references.",
  ["src/state.cpp", "src/cmd_parser.cpp", "src/main.cpp"])

p("C05", "With a reference file, every assumption of the proof is a reference assertion",
  "When a reference file is given (by command or command line), the input is accepted only if the formula of every assume command that follows the reference, at any nesting level and in any included file, is one of the formulas asserted by the reference after the requested normalization and expansion of definitions (a define-fun also asserts the equation defining its symbol); an assume-push is exempt. The verdict does not depend on where further files are included, and a second reference is rejected; without a reference every assume is allowed.",
  ["inputs", "configurations", "histories"], "all sets of reference assertions x all proofs' assumptions x include/reference order, command line vs command, normalization",
  "Tests have a few matching references and one or two mismatches at the top level only.",
  ["src/state.cpp", "src/cmd_parser.cpp", "src/main.cpp"])

p("C06", "The response is faithful: success is reported only for error-free inputs",
  "The checker prints `correct` and exits with status 0 exactly when the entire input was processed without an error and no accepted step used a rule marked as sorry, prints `incomplete` (status 0) exactly when it was error-free but some step or step-pop used such a rule, and otherwise prints neither and exits with a non-zero status and an error message (with the file, line and column where it concerns a token or command). Inputs outside of the documented grammar are errors, no part of the input is silently skipped except what follows an exit command, and echo output appears exactly once and in order.",
  ["inputs", "programs"], "all inputs: command sequences with an error of any kind at any position, sorry rules used or only declared, across files and stdin",
  "Tests check the exit code of fixed files; none plants an error at every position, or checks that sorry in an included file or scope is still reported.",
  ["src/main.cpp", "src/cmd_parser.cpp", "src/state.cpp", "src/lexer.cpp"])

p("C07", "Application syntax desugars exactly as the operator's attribute documents",
  "For every operator declared with an attribute (left/right associative, with nil, without singleton lists, chainable, pairwise, argument list, binder) and every number and shape of arguments, including parameters marked as lists and parametric nil terminators, the parsed application is the same term as the explicit curried application given by the manual. Higher-order `_` applications are taken literally.",
  ["inputs"], "all attributes x argument counts x list-marked or nil or nested arguments x partial applications",
  "Tests show each attribute on two or three arguments; argument counts, list parameters in each position and nested combinations are unbounded.",
  ["src/state.cpp", "src/type_checker.cpp", "src/expr_parser.cpp", "src/attr.cpp"])

p("C08", "Programs evaluate as ordered first-match rewriting",
  "A ground application of a program evaluates to the right-hand side of its first case whose pattern matches the evaluated arguments (repeated parameters must match identical terms, list parameters may match several arguments), instantiated and evaluated in turn; if no case matches, or an argument failed to evaluate, the application stays unevaluated and is not equal to any value. Conditionals evaluate only the selected branch, a requirement evaluates only if its two sides are the same value, and evaluation is the same wherever the application occurs (step argument, rule body, definition, type, another program).",
  ["programs", "inputs"], "all programs in the documented grammar (non-linear, nested, overlapping, list, recursive, mutually recursive patterns) x all ground arguments",
  "Tests run a few dozen hand-written programs once each; match order, non-linearity and stuckness need arbitrary overlapping cases.",
  ["src/type_checker.cpp", "src/state.cpp", "src/cmd_parser.cpp"])

p("C09", "Terms are accepted with exactly the type their declarations give them",
  "Every term whose symbols are applied consistently with their declared types (simple, polymorphic, dependent, requirement-guarded or computed types, implicit and opaque arguments) is accepted and has the type obtained by instantiating those declarations, and every application with an argument whose type does not match is rejected wherever a type is needed. Definitions with a declared type, stated conclusions and assumed formulas are checked against it in the same way.",
  ["inputs", "programs"], "all signatures of constants with such types x all well-typed and ill-typed applications of them",
  "Tests include a few ill-typed files; type safety quantifies over all applications, and the errors that matter are the ones with nearly matching types.",
  ["src/type_checker.cpp", "src/state.cpp", "src/expr_parser.cpp"])

p("C10", "Syntactic identity, hashing and ordering of terms are consistent",
  "Two terms are identified (by eo::eq, by matching, by repeated parameters, as conclusions) exactly when they are the same after desugaring and evaluation, regardless of how, when and in which order they were built, discarded and rebuilt. eo::hash is equal exactly for identical terms and constant during a run, and eo::cmp is a strict total order on values that agrees with the hash order.",
  ["histories", "inputs"], "all pairs and triples of terms x construction/destruction histories (scopes pushed and popped, terms garbage collected and recreated)",
  "Tests compare a handful of terms once; sharing tables can only go wrong on histories that delete and recreate terms.",
  ["src/state.cpp", "src/expr_trie.h", "src/expr.cpp", "src/type_checker.cpp"])

p("C11", "No input makes the checker crash or touch invalid memory",
  "On every input, well-formed or arbitrary, the checker either completes or rejects it with an error message; it never accesses invalid memory, executes undefined behaviour, violates an internal assertion, terminates through an unhandled exception, or hangs on inputs whose evaluation terminates. This holds in every build and option configuration.",
  ["inputs", "configurations", "histories"], "all byte strings as files, includes, references and stdin x command line options",
  "Tests are about 170 hand-written files without sanitizers; memory errors live on malformed and unusual inputs.",
  ["src/lexer.cpp", "src/expr_parser.cpp", "src/cmd_parser.cpp", "src/state.cpp", "src/type_checker.cpp", "src/literal.cpp", "src/expr_trie.h"])

p("C12", "Meaning does not depend on layout, comments, symbol quoting or input channel",
  "Changing whitespace, line structure or comments (with any bytes in them), writing a simple symbol with or without |quotes|, or delivering the same text as a file or over standard input, in chunks of any size, does not change the verdict or what is proven. Every byte of the input counts: tokens of any length and at any offset are read exactly, and error messages give the line and column of the offending token.",
  ["inputs", "schedules"], "all inputs x layouts x token lengths and offsets (including buffer boundaries) x read chunkings",
  "Tests are fixed files in one layout read from disk; none spans read buffers or is streamed.",
  ["src/lexer.cpp", "src/input.cpp", "src/expr_parser.cpp", "src/main.cpp"])

p("C13", "Verdicts do not depend on build, diagnostics, names or irrelevant context",
  "For a fixed input the verdict is the same on every run, in debug and release builds, and under every option that only affects diagnostics (statistics, tracing, verbosity, printing). It is also invariant under consistent renaming of user symbols and proof steps and under adding unused declarations or moving declarations into included files.",
  ["configurations", "inputs"], "all inputs x builds x diagnostic options x renamings x irrelevant additions",
  "Each test runs in one configuration with one choice of names; pointer-order and environment dependence only appear across variations.",
  ["src/main.cpp", "src/state.cpp", "src/stats.cpp", "src/type_checker.cpp", "src/expr.cpp"])

p("C14", "Including files composes as if each file were read once, in place",
  "Including a file has the same effect as reading its commands at the point of the include, relative paths being resolved against the file containing the include (or the working directory for command line includes), and a file is read at most once however many times and through whichever paths (relative, absolute, dotted, or through a symbolic link) it is included. Missing files, and cycles, are handled without losing or duplicating declarations; an error in an included file rejects the whole input.",
  ["inputs", "configurations"], "all include graphs (trees, diamonds, cycles, subdirectories, path spellings) and command line includes",
  "Tests include a fixed few files from one directory, each by one spelling.",
  ["src/state.cpp", "src/util/filesystem.cpp", "src/cmd_parser.cpp", "src/main.cpp", "src/parser.cpp"])

p("C15", "Symbols resolve to the declarations in scope across push, pop, reset, overloads",
  "A symbol refers to its declarations in the enclosing scopes only: bindings made after a push, inside a binder, let or parameter list disappear when that scope closes and the previous meaning (value, attributes, overloads) is exactly restored; reset returns to the initial state. An overloaded symbol denotes in each application the declaration whose type accepts the arguments (the most recent one if several do, and unapplied the most recent one), and eo::as selects the declaration of the given function type; undeclared symbols and forbidden redeclarations are rejected.",
  ["histories", "programs"], "all sequences of declarations, shadowings, overloads, push/pop/reset and uses",
  "Tests declare few symbols and rarely shadow; restoration errors need a use after a particular open/redeclare/close history.",
  ["src/state.cpp", "src/cmd_parser.cpp", "src/expr_parser.cpp", "src/type_checker.cpp"])

p("C16", "Literals denote their standard values under every normalization setting",
  "Every literal (numeral, decimal, rational, hexadecimal, binary, string with escapes) of any size denotes the SMT-LIB value it spells, negative literals and distinct spellings of one value included, and malformed literals are rejected. In proof and reference files numerals, decimals and hexadecimals are converted exactly as the command line options or set-option commands request, whereas signature files are never affected.",
  ["inputs", "configurations"], "all literal spellings x file kinds x normalization options set by flag or command",
  "Tests cover a few literals in default settings.",
  ["src/lexer.cpp", "src/expr_parser.cpp", "src/literal.cpp", "src/util/string.cpp", "src/util/rational.cpp", "src/main.cpp", "src/state.cpp"])

p("C17", "Terms that are printed can be read back as the same term",
  "Every ground term or type the checker prints in an error report (what a step proves and what was expected, the arguments of a step that fails, requirements that fail, terms of the wrong type and their types) is printed in the language's own syntax, so that reading the printed text back in the same context gives the identical term, with sharing of subterms in the output and without it (--no-print-dag). In particular different terms are never printed identically. This holds for symbols of any name, literals of every kind but decimals (which a signature prints with an annotation), variables whose names are printable ASCII without backslashes, partial applications, and operators with any attribute; a symbol that was overloaded or shadowed is printed by its name.",
  ["inputs"], "all ground terms and types: nested applications, literals of all kinds, quoted symbols, variables, partial applications, shared subterms, stuck terms",
  "No test reads printed output back.",
  ["src/expr.cpp", "src/literal.cpp", "src/util/string.cpp", "src/kind.cpp"])

p("C18", "Definitions and lets are transparent, and bound variables are canonical",
  "A term using define, eo::define or let is the same term as its expansion, with arguments substituted simultaneously and with lexical scoping, and definitions are as general as their bodies. A variable is determined by its name and type alone, so binders over the same variable list give identical terms, variables shadow constants of the same name only inside the binder, and eo::var builds the same variable as the binder does.",
  ["programs", "inputs"], "all nestings of definitions, lets and binders with shadowing and repeated names",
  "Tests have a few simple macros; simultaneous-binding and shadowing mistakes need nested rebindings of the same names.",
  ["src/expr_parser.cpp", "src/state.cpp", "src/cmd_parser.cpp", "src/type_checker.cpp"])

p("C19", "Datatype declarations give exactly the declared constructors and selectors",
  "Declaring datatypes (single, mutually recursive, parametric) introduces exactly the declared constructors and selectors with their types, and eo::dt_constructors and eo::dt_selectors return them in declaration order for every datatype, instance and constructor, including constructors that need a type annotation; on anything else they do not evaluate. Applications of the declared symbols type check exactly as their signatures say.",
  ["inputs", "programs"], "all datatype declaration blocks in the documented grammar x queries and applications",
  "Tests declare lists, trees and pairs only.",
  ["src/expr_parser.cpp", "src/cmd_parser.cpp", "src/type_checker.cpp", "src/state.cpp"])
p("C20", "Programs, proof rules and declarations are accepted exactly when they are well formed",
  "A program is accepted only if each case is an application of that program to as many arguments as its signature has, its patterns contain no computational operator and no program application (also not one that a list parameter desugars to), its right-hand side has no parameter that the patterns of the same case do not bind, and it is defined at most once, with the signature it was declared ahead with. A proof rule is accepted only if all parameters of its requirements and conclusion occur in its arguments, premises, assumption or explicit conclusion, and those contain no such operators. Types of constants and of arguments and results of programs are types, eo::quote is of a parameter, a constant has at most one constructor attribute and none beside opaque arguments, opaque arguments come first, and the body of a definition does not use its implicit parameters. Anything else is rejected at the command that has it; every declaration that keeps these rules is accepted. (Operators that evaluate when they are read are not judged.)",
  ["inputs", "programs"], "all program, rule, constant and definition declarations, in every kind of file",
  "Tests hold a few accepted declarations each and hardly any rejected ones; what a rejected one would let through is a rule that proves a formula with a free parameter.",
  ["src/expr_parser.cpp", "src/cmd_parser.cpp", "src/expr.cpp", "src/type_checker.cpp"])
p("C21", "Shared and deep terms cost what they are, not what they unfold to",
  "Terms and types whose subterms are shared (through definitions, lets, macros or programs) are read, typed, compared, matched, substituted, evaluated, used in rules, steps, assumptions and references, and printed in messages without being unfolded: a term of a few hundred levels that unfolds to more than 2^100 symbols is answered in seconds at most, and shown in a message of proportionate size (unless --no-print-dag is given). During an evaluation a program is run once on the same arguments. Terms, programs and lists that are tens of thousands of levels deep or long need no more than an ordinary stack.",
  ["inputs", "programs"], "all terms, types and programs with sharing, however built x all operations on them",
  "The terms of tests are small; proofs of real solvers share heavily, and a traversal that loses its cache still gives the right answer on small terms.",
  ["src/type_checker.cpp", "src/expr.cpp", "src/state.cpp", "src/expr_parser.cpp"])

MECH = {
 "C01": [("Literal::evaluate and the value classes", "src/literal.cpp, src/util/*.cpp"), ("eager evaluation of builtin applications", "TypeChecker::evaluateLiteralOp in src/type_checker.cpp")],
 "C02": [("list operator evaluation over n-ary terms", "TypeChecker::evaluateLiteralOpInternal, getNAryChildren, prependNAryChildren in src/type_checker.cpp")],
 "C03": [("rule compiled to a program and matched", "State::notifyStep in src/state.cpp; declare-rule and step cases in src/cmd_parser.cpp"), ("pattern matching", "TypeChecker::match, evaluateProgramInternal in src/type_checker.cpp")],
 "C04": [("assumption scope stack", "State::pushAssumptionScope, popAssumptionScope, addAssumption in src/state.cpp"), ("unclosed scope checks", "src/cmd_parser.cpp, src/main.cpp")],
 "C05": [("set of reference assertions", "State::addReferenceAssert, addAssumption, includeFile in src/state.cpp")],
 "C06": [("final response", "src/main.cpp"), ("sorry tracking", "State::markProofRuleSorry, CmdParser step case"), ("fatal error reporting", "Lexer::parseError in src/lexer.cpp; src/base/check.cpp")],
 "C07": [("attribute-driven term construction", "State::mkApplyAttr in src/state.cpp"), ("nil computation", "TypeChecker::computeConstructorTerm in src/type_checker.cpp")],
 "C08": [("program evaluation", "TypeChecker::evaluate, evaluateProgramInternal, match in src/type_checker.cpp"), ("eager evaluation at construction", "State::mkExpr in src/state.cpp")],
 "C09": [("type inference and function-type matching", "TypeChecker::getType, getTypeApp, getTypeInternal in src/type_checker.cpp"), ("checks of declared types", "ExprParser::typeCheck in src/expr_parser.cpp")],
 "C10": [("hash-consing trie", "State::mkExprInternal in src/state.cpp, src/expr_trie.h"), ("reference counting and deletion", "State::markDeleted; ExprValue::dec in src/expr.cpp"), ("hash numbering", "State::getHash")],
 "C11": [("error paths", "Lexer::parseError, EO_FATAL in src/base/check.h"), ("ownership of terms", "src/expr.cpp, State::markDeleted, src/expr_trie.h")],
 "C12": [("buffered tokenizer", "src/lexer.cpp, src/input.cpp"), ("quoted symbol normalization", "ExprParser::tokenStrToSymbol in src/expr_parser.cpp")],
 "C13": [("ordered containers and term order by creation", "src/state.cpp, src/expr.cpp"), ("options", "src/main.cpp, State::setOption")],
 "C14": [("canonical paths and include set", "State::includeFile, markIncluded in src/state.cpp; src/util/filesystem.cpp")],
 "C15": [("symbol table with scope trail", "State::bind, pushScope, popScope, reset, getOverloadInternal in src/state.cpp")],
 "C16": [("literal tokens and normalization", "Lexer::tokenizeCurrentSymbol in src/lexer.cpp; ExprParser::parseExpr in src/expr_parser.cpp"), ("string escapes", "src/util/string.cpp, ExprParser::unescapeString")],
 "C17": [("printer", "Expr::printDebugInternal, computeLetBinding in src/expr.cpp; Literal::toString in src/literal.cpp")],
 "C18": [("macro expansion", "let and eo::define cases of ExprParser::parseExpr; define case in src/cmd_parser.cpp; beta reduction in State::mkExpr"), ("canonical variables", "State::getBoundVar")],
 "C19": [("datatype parsing", "ExprParser::parseDatatypesDef in src/expr_parser.cpp"), ("constructor and selector lists", "TypeChecker evaluation of dt_constructors and dt_selectors")],
 "C20": [("patterns and bound parameters", "ExprParser::typeCheckProgramPair, ensureBound, findFreeVar in src/expr_parser.cpp; Expr::getVariables in src/expr.cpp"), ("declaration commands", "program, declare-rule, declare-parameterized-const and define cases of src/cmd_parser.cpp")],
 "C21": [("traversals with caches and explicit stacks", "TypeChecker::evaluate, match, getType in src/type_checker.cpp; Expr::getVariables, computeLetBinding, printDebugInternal, ExprValue::computeFlags in src/expr.cpp; State::markDeleted in src/state.cpp; ExprParser::parseExpr in src/expr_parser.cpp")],
}
OBS = ["exit status, standard output and standard error of the ethos binary", "sanitizer and assertion reports of the instrumented build"]
for e in P:
    e["anchors"]["mechanism"] = [dict(name=n, where=w) for n, w in MECH[e["id"]]]
    e["anchors"]["observe_at"] = OBS
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for e in P:
        f.write(json.dumps(e, ensure_ascii=False) + "\n")
print(len(P))
