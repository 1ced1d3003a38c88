import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))
D="doctor-syn/src/"; M="libmgen/src/"
p("R01","A request emits exactly what it needs, once, in table order",
 "For any list of requested functions or groups and any list of exclusions, the generator selects exactly the entries reachable from the request through dependencies without passing through an excluded entry. Each selected entry appears once, in the fixed order of the table, whatever the order or repetition of the request; unknown names are reported and ignored.",
 ["configurations","inputs"],"All request lists and exclusion lists over the function table (plus unknown names), in any order and with repetitions.",
 "Tests only generate a handful of fixed requests and never look at the selection; order, repetition and exclusion interact with the graph.",
 [M+"functions.rs",M+"main.rs"],[("dependency worklist and table sort","get_functions_and_deps"),("function table","FUNCTIONS")],[("stack","names still to be resolved"),("res","selected entries")])
p("R02","Generated libraries are self-contained",
 "For any request without exclusions, the Rust output compiles on its own as a crate, with or without its generated tests and plots, and every name the emitted code uses is defined in it exactly once. The same holds for C output under a C compiler for every function that has a C form.",
 ["configurations"],"All single entries and arbitrary combinations of entries, at 32 and 64 bits, decimal and hex numbers, in Rust (also with tests, plotting or not) and C (which has no tests).",
 "The generated tests always request helpers by hand alongside the functions, which hides a missing dependency.",
 [M+"functions.rs",M+"auxfuncs.rs",M+"log_exp.rs",M+"trig.rs",D+"codegen/rust.rs",D+"codegen/c.rs"],[("dependency lists","FUNCTIONS"),("code templates","gen_*")])
p("R03","Generation is reproducible and writes only the requested code",
 "The same options always produce byte-identical code, the text written to a file with -o is the text otherwise written to standard output, and standard output holds nothing but that code. An unknown language or an empty request writes no code and creates no file; permuting or repeating the request changes nothing.",
 ["configurations","histories"],"All option combinations (functions, exclusions, width, number type, language, output) and repeated or permuted runs.",
 "No test runs the program twice, with -o, or with bad options.",
 [M+"main.rs",M+"config.rs",M+"functions.rs"],[("option handling and output","main")])
p("A01","Expression operators build the operation they name",
 "Combining two expressions with +, -, * or / yields an expression whose value equals that operation on the operands' values for every assignment of the variables, grouping the operands as wholes. When both operands are numeric literals, sums, differences and products are exact decimals, and quotients are right to at least 90 digits.",
 ["inputs","programs"],"All pairs of expressions over variables, literals, operators, method calls, and all four operators.",
 "Doc tests only add two literals; the symbolic branch and three of the operators are never executed.",
 [D+"expression.rs"],[("operator macro","make_op!"),("exact decimal arithmetic","BigDecimal")])
p("A02","Substitution replaces every occurrence, simultaneously, and nothing else",
 "Substituting a list of bindings gives an expression whose value in any environment is the original's value with each bound variable rebound to its replacement's value there. Bindings act simultaneously, the first binding of a name wins, replacements are not re-substituted, and unbound names, method names and field names stay.",
 ["inputs","programs"],"All expressions in the supported subset, all binding lists including overlapping, swapping and duplicate bindings.",
 "One doc test substitutes a literal for one variable in x + 1.",
 [D+"transformation/subst.rs",D+"variablelist.rs",D+"visitor.rs",D+"name.rs"],[("path visitor","Subst::visit_path"),("first match lookup","VariableList::find"),("structure preserving traversal","Visitor")])
p("A03","Expansion preserves value and leaves a sum of products",
 "Expanding any supported expression gives an expression equal to it for every assignment of the variables. No product in the result that came from multiplication of sums still has a sum or difference as a factor, and constructs that are neither sum, difference, product nor negation are kept as whole operands.",
 ["inputs","programs"],"All expressions over + - * / % comparison, shift and bit operators, negation, parentheses, method calls and fields.",
 "Tests expand about ten polynomials in x and 1; sign and grouping handling depends on nesting depth and on which operators sit next to each other.",
 [D+"transformation/expand.rs",D+"transformation/tools.rs"],[("sum flattening with sign","match_sum"),("sum rebuilding","make_sum"),("negation","negate")])
p("A04","Parenthesising makes grouping explicit without changing meaning",
 "Parenthesising an expression gives one with the same value for every assignment in which every operand that is itself an operation is enclosed in parentheses, so its printed form means the same under any operator precedence. It keeps everything else, is idempotent, and collecting terms never changes the value.",
 ["inputs","programs"],"All expressions in the supported subset.",
 "Four fixed sums are tested; unary operands, nested methods and mixed operators are not.",
 [D+"transformation/paren.rs",D+"transformation/collect.rs",D+"visitor.rs"],[("operand wrapping","Paren::visit_expr")])
p("A05","Printed expressions mean what the expression means",
 "The printed form of any expression obtained by parsing, combining, substituting, expanding, parenthesising or converting numbers parses back to an expression with the same value for every assignment of the variables.",
 ["programs","histories"],"All sequences of parse, combine, substitute, expand, parenthesise, collect and number-type operations over a set of expressions.",
 "Tests compare syntax trees and never print and re-read a transformed expression, so lost grouping is invisible.",
 [D+"expression.rs",D+"transformation/subst.rs",D+"transformation/expand.rs",D+"transformation/tools.rs"],[("token printing","Display for Expression"),("reconstruction of operators","make_binary, make_sum, make_operand")])
p("A06","Any history of transformations agrees with algebra",
 "After any sequence of combining, substituting, expanding, parenthesising and collecting, each expression obtained equals, for every assignment of the variables, the expression that algebra prescribes for that sequence. A rejected operation reports an error and changes none of the expressions.",
 ["histories","programs"],"All sequences of operations over several named expressions, including repeated and interleaved ones.",
 "Tests apply a single transformation to a fixed input; errors that only show when one transformation's output feeds another are out of reach.",
 [D+"expression.rs",D+"transformation/expand.rs",D+"transformation/subst.rs",D+"transformation/paren.rs",D+"visitor.rs"],[("visitor framework","Visitor"),("operators","make_op!")])
p("E01","Constant arithmetic is decimal-exact to the requested digits",
 "Evaluating a constant expression gives exact sums, differences, negations, absolute values, signs and comparisons, and products and quotients that are off by at most half a unit in the last requested decimal place. Grouping and precedence are those of the source, and literal suffixes, exponents and digit separators are read as numbers.",
 ["inputs","programs"],"All constant expressions over literals of any size and scale, all digit counts.",
 "Tests evaluate five two-literal expressions with small integers.",
 [D+"transformation/eval.rs",D+"bdmath.rs",D+"expression.rs"],[("constant folding","Eval::visit_binary"),("decimal rounding","round")])
p("E02","Rounding to decimals, integers and floats is to nearest",
 "Rounding a number to a count of decimal places returns the nearest number with at most that many places, ties going away from zero, and returns a number that already fits unchanged. The round method rounds to the nearest integer by the same rule. round_ieee gives exactly the value of the nearest 32 or 64 bit float, ties to even, and an error beyond the range of the format.",
 ["inputs"],"All decimals of any sign, size and scale, all digit counts including zero and negative (negative leaves the number alone).",
 "Four positive examples are tested; signs, ties, carries and large numbers are not.",
 [D+"bdmath.rs",D+"transformation/eval.rs"],[("half-unit addition and truncation","bdmath::round")])
p("E03","Elementary functions are accurate to the requested digits",
 "Evaluating exp, exp2, powers, square root, logarithms, reciprocal, the trigonometric functions and their inverses gives the mathematically true value to the requested number of digits, up to a small fixed number of units. This holds on both sides of every internal range split and at every precision up to 90 digits.",
 ["inputs"],"All arguments of moderate size in the domain of each function, precisions from 10 to 60 digits and more.",
 "Tests probe about 30 fixed points at 20 digits and three 17-point grids compared at only 1e-6.",
 [D+"bdmath.rs",D+"transformation/eval.rs"],[("Maclaurin summation","maclaurin"),("range reductions","ln, asin, atan"),("method dispatch","Eval::visit_method_call")])
p("E04","Normal-distribution functions are accurate and mutually consistent",
 "The error function, its complement, the normal density, the normal cumulative probability and its inverse evaluate to the true values to the requested digits for any mean and any positive deviation. The inverse undoes the cumulative probability.",
 ["inputs"],"All arguments of moderate size, means, positive deviations and precisions.",
 "Five fixed points are tested, one per function.",
 [D+"bdmath.rs",D+"transformation/eval.rs"],[("erf series","erf"),("Newton iteration","qnorm")])
p("E05","Evaluation always answers: a number, a truth value or an error",
 "Evaluating any supported-syntax expression terminates with a result or an error and never crashes. Division by zero, arguments outside a function's domain, unknown names, unknown methods, wrong argument counts, non-numeric operands powers of a base that is not positive and unsupported operators give an error, and every expression without such a fault gives a result. A text, character or other literal stands for itself, and a result beyond thousands of digits may be refused.",
 ["inputs","programs"],"All expressions mixing valid and faulty subexpressions at any depth.",
 "Tests check a single unbound variable; faults inside nested expressions and domain edges are never evaluated.",
 [D+"transformation/eval.rs",D+"bdmath.rs",D+"error.rs",D+"visitor.rs"],[("error paths","eval_err, errfn"),("domain guards","visit_method_call")])
p("N01","Number-type conversion rewrites literals only, to the nearest float",
 "Converting an expression to a 32 or 64 bit number type replaces each numeric literal, in decimal or bit-pattern form, by one denoting the floating point number closest to it within one unit in the last place, written for the requested width. Everything else is unchanged, and unknown types leave the expression alone.",
 ["inputs","programs"],"All expressions and all literals in the range of the target type, both widths, both notations.",
 "No test calls it directly; generated code is only compiled in decimal form.",
 [D+"transformation/use_number_type.rs",D+"visitor.rs"],[("literal rewriting","UseNumberType::visit_lit")])
p("N02","Numbers survive conversion to and from expressions",
 "An expression made from a float, decimal or truth value denotes that value (floats to at least 15 or 6 significant digits), is recognised as a literal or number exactly when it is one, and converts back to the same value. Converting a non-number reports an error, and a list of bindings returns the first value bound to a name.",
 ["inputs"],"All finite floats, decimals of any scale, and all kinds of expressions.",
 "Tests never convert back, and use positive literals with few digits.",
 [D+"expression.rs",D+"variablelist.rs"],[("conversions","From, TryFrom"),("classification","is_lit, is_numeric")])
p("I01","The interpolating polynomial passes through its points",
 "The polynomial built from n points with distinct abscissae has at most n coefficients, takes each given value at each given abscissa up to the requested digits, and reproduces exactly the coefficients of any polynomial of smaller degree the points were taken from.",
 ["inputs"],"All point sets of any size with distinct abscissae in any order, all precisions.",
 "One four-point set with abscissae 1..4 is tested to 1e-5.",
 [D+"polynomial.rs",D+"bdmath.rs"],[("divided differences","divided_differences"),("basis accumulation","Polynomial::from_points")])
p("I02","Approximation reproduces the function at its nodes with the asked shape",
 "Approximating an expression with n terms over an interval returns a chain of multiply-adds in the variable equal to the polynomial that interpolates it at the n cosine-spaced nodes including both ends, so polynomials of lower degree are reproduced everywhere. Odd and even approximations contain only powers of that parity and match for functions of that parity, and a term count that does not fit the parity is an error.",
 ["inputs","programs","configurations"],"All term counts, intervals, parities, precisions up to 90 digits and expressions in one variable.",
 "The only example is ignored; generated tests compare a few functions at fixed term counts with loose bounds.",
 [D+"transformation/approx.rs",D+"polynomial.rs"],[("node placement","approx"),("chain building per parity","mul_add_polynomial")])
p("C01","C translation computes what the Rust source computes",
 "Translating a file of constants, type aliases and functions, public or private, made of typed, inferred or dropped bindings, constants of their own, declarations and assignments, arithmetic, comparison, logic, bit and shift operators, casts, conditional values and statements, blocks, from_bits/to_bits, constants of the number types and of their aliases, calls of the float methods and of the mathematics functions gives C that compiles and whose functions return, for every argument for which the Rust source returns, the value the Rust source returns. Operator grouping, conditional nesting, the types and values of literals, the scopes of variables and the call targets are preserved; a mathematics function is the one of the C library for the width of the file (equal up to 4 units in the last place), and its result has the type of the file's float.",
 ["programs","inputs"],"Files in the translated subset: 32- or 64-bit numbers, usize and truth values; one float width, that of the options, for methods; `%` on integers only; abs of floats; wrapping_mul of unsigned numbers; floats cast to integers only within their range; unsuffixed literals only next to operands that have a type or where a written type fixes theirs; constants and type aliases before their uses, constants not named like macros of math.h. All arguments; results up to the contraction of multiply-add.",
 "The only test prints one translation and checks nothing.",
 [D+"codegen/c.rs"],[("visitor of expressions and statements","CVisitor"),("method mapping","visit_expr_method_call")])
p("C02","Generated C functions agree with the generated Rust functions",
 "For every function that has a C form, the C library, with decimal or hexadecimal constants, returns for the same arguments the bits that the Rust library returns; where they differ, they are the bits that the Rust library returns when its multiply-adds round twice, as C writes them. NaN agrees with NaN.",
 ["configurations","inputs"],"All generated functions with a C form (not sin_cos, which returns a pair), both widths, all arguments in and around the domains.",
 "No test compiles or runs the C output.",
 [D+"codegen/c.rs",M+"main.rs",M+"config.rs"],[("C back end","to_c"),("prefix and float suffix","Config")])
p("S01","SIMD translation computes each lane like the scalar source",
 "Translating a file of scalar functions for portable SIMD gives one method per function that, applied to vectors of any length, returns in each lane the value that the scalar function returns for that lane's arguments. Conditionals become lane selections, also when their branches have statements; constants, of the file or of a function or block, in whatever order they are written, and literals apply to all lanes; casts between floats, signed and unsigned integers, under whatever alias, keep their width; and functions of the file, public or private, call each other as methods.",
 ["programs","inputs"],"Files of constants, aliases and functions of floats and integers of the file's width (the first parameter a float, truth values only to decide), with bindings, dropped values, declarations, assignments (also compound), + - * and bit operators, float division, shifts by literals, comparisons, && || !, casts, from_bits/to_bits, NAN, INFINITY and MIN_POSITIVE, conditional expressions with both branches, blocks, float methods that vectors have, and calls. Bare integers only to the right of an operator. All lane values, mixing lanes that take different branches.",
 "The only test prints one translation and checks nothing.",
 [D+"codegen/portable_simd.rs"],[("mutating visitor","SimdVisitor"),("call, cast, comparison, literal conversion","convert_*"),("constants of a function","to_simd")])
p("S02","The generated SIMD library computes in every lane what Rust computes",
 "The library generated for portable SIMD, with decimal or hexadecimal constants, compiles for any vector length and returns, in every lane and for any values in the other lanes, the bits that the generated Rust library returns for the arguments of that lane. NaN agrees with NaN.",
 ["configurations","inputs"],"All generated functions except runif and rnorm (their first argument is no float), both widths, decimal and hexadecimal constants, all arguments in and around the domains. The Rust library is the one whose functions call each other where the float type has methods of the same names, as a vector's do.",
 "No test compiles or runs the SIMD output.",
 [D+"codegen/portable_simd.rs",M+"main.rs"],[("SIMD back end","to_simd"),("choice of language","main")])
p("F01","Formatting a token stream keeps the program",
 "Formatting Rust items as text and reading the text back gives the same sequence of tokens, so the generated file means what was generated. Nesting is reproduced at any depth that real code has.",
 ["programs"],"All item streams of functions, constants, attributes, nested blocks, literals and operators.",
 "Generated files are only compiled for a few functions; token gluing depends on which tokens meet.",
 [D+"codegen/rust.rs"],[("recursive printer","append_token")])
p("G01","Generated functions meet their accuracy over their domain",
 "Every generated function, compiled for 32 or 64 bits from Rust or C, returns the true mathematical value to within a fixed small number (1 to 14) of units of the width times the condition of the function at that argument, over its whole domain: at the ends of the domain, on both sides of internal branches, after range reduction, for tiny and for huge arguments. The normal quantile is, between 0.0001 and 0.9999, within an error that its interpolation degree gives (8e-5 deviations in the middle at 64 bits).",
 ["inputs","configurations"],"All normal arguments in the domain (sin, cos and tan up to 2^18, asinh and acosh while the square is finite, powf of positive bases, log in bases not next to 1), both widths, decimal and hex constants. Absolute for the bounded inverse functions and the logarithms. Results in the top binade may be infinite, subnormal ones zero.",
 "Generated tests sample a few hundred evenly spaced points of some functions on part of the domain; several have no tests.",
 [M+"trig.rs",M+"inv_trig.rs",M+"log_exp.rs",M+"hyperbolic.rs",M+"recip_sqrt.rs",M+"stats_norm.rs",M+"functions.rs"],[("templates with embedded approximations","gen_*"),("term counts","FUNCTIONS")])
p("G02","Generated constants are the correctly scaled mathematical constants",
 "Every generated constant has, at both widths, the value its name states, to the precision of the type; integer constants match the layout of the float type of that width.",
 ["configurations"],"All constants, both widths, every language that emits them.",
 "Constants are only exercised indirectly through functions with loose bounds.",
 [M+"auxfuncs.rs",D+"bdmath.rs"],[("constant templates","gen_*")])
p("G03","Generated tests carry true reference values",
 "Each reference row in a generated test holds an argument in the stated interval, the true value of the tested function there rounded to the width, and the remaining rounding error, at evenly spaced arguments; each test has the stated number of rows and applies the function it is meant for, with the stated number of units of the width as its limit. A generated test fails exactly when some result is further from the true value (value plus remaining error) than the limit, or is no number. A generated test of a random function, which counts a million results in 32 buckets, fails when the density in some bucket, be it the first or the last, is off by more than 0.03, and passes when it is within 0.01 in every bucket. With plots asked for, a test that passes also writes, for each row, the argument, the reference value, the result and the distance of the result from the true value.",
 ["configurations","inputs"],"All test specifications, both widths, all rows.",
 "The generated tests trust these values; a wrong row or limit makes them pass or fail for the wrong reason.",
 [M+"test.rs",M+"functions.rs",D+"transformation/eval.rs"],[("row generation","gen_max_abs"),("test table","TestSpec")])
p("G04","Generated functions honour symmetry, range reduction and special values",
 "Generated functions keep the laws of the functions they implement: odd and even symmetry up to rounding, sine and cosine within 1 after any range reduction, the quadrants of atan2, sin_cos equal to sine and cosine, under- and overflow to zero and infinity, the limits at infinities and poles, and NaN exactly outside the domain and for NaN.",
 ["inputs","configurations"],"All arguments including negative, tiny, huge, infinite, NaN, boundary and out-of-domain ones, both widths, Rust and C. Signs of zeros are open; powf of negative bases and hypot of infinities with NaN are not specified.",
 "Generated tests use interior points only; none uses an out-of-domain, boundary or huge argument.",
 [M+"trig.rs",M+"inv_trig.rs",M+"log_exp.rs",M+"hyperbolic.rs",M+"recip_sqrt.rs",M+"auxfuncs.rs"],[("branches and clamps","gen_*")])
p("G05","Bit-level and random helpers follow their definitions for every input",
 "The uniform generator returns, for every index, the documented splitmix64 mixing of the index, cut to the mantissa of the width and scaled into the interval asked for; the normal generator is the normal quantile of that uniform number. nextafter returns the next float, negate_on_odd negates exactly at odd integer parts, round gives the nearest integer (ties away from zero), and the reciprocal, square-root and cube-root estimates are within 7, 3.5 and 3.5 percent.",
 ["inputs","configurations"],"All indices below 2^63, all bounds, and all float arguments (nextafter: positive patterns; negate_on_odd: integers that fit), both widths, Rust and C.",
 "A histogram over the first million indices checks one property of one width; next-after is tested at 1 only.",
 [M+"stats_random.rs",M+"stats_norm.rs",M+"auxfuncs.rs"],[("splitmix mixing","gen_runif"),("bit tricks","gen_negate_on_odd, gen_nextafter, gen_power_scale")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
