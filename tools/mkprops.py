import json
P=[]
def p(id,title,st,over,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":["inputs"],"text":over},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe or [],"hook_needed":None}})
R="src/smart_num/rational.rs"; V="src/smart_num/val_holder.rs"; N="src/smart_num/mod.rs"; T="src/ast/tree.rs"
p("C01","Exact fraction arithmetic",
 "Adding, subtracting, multiplying, dividing and negating exact fractions gives the mathematically exact result whenever the computation does not abort on integer overflow, and a sum, difference, product or quotient is in lowest terms with a positive denominator. Every result carries a valid sign (+1 or -1), also when it is zero. Dividing by zero, or adding, subtracting or multiplying with the result of such a division, never yields an ordinary number.",
 "all pairs of fractions with 64-bit numerator and denominator and sign +1 or -1, reduced or not, including zero written with any denominator and either sign",
 "The tests multiply and add a dozen hand-picked fractions; sign combinations, zero results, unreduced operands and operands near 2^64 are not sampled.",
 [R],[("Add/Sub/Mul/Div/Neg for RationalNum",R),("gcd, reduce",R)],["results of the fraction operators"])
p("C02","Fraction construction, reduction and equality follow the value",
 "Two fractions compare equal exactly when they denote the same rational number, however they are written. Reducing a fraction never changes its value or sign and leaves it in lowest terms; building one from a sign, a numerator and a denominator succeeds exactly when the sign is +1 or -1 and the denominator is not zero, and then has exactly that value, as does building one from an integer.",
 "all signs, numerators and denominators (64-bit), all integers that can be converted",
 "Tests compare a few fractions; equality of unreduced fractions, of the two zeros and of the extreme integers is not covered.",
 [R],[("PartialEq, reduce, gcd, new, new_positive, new_negative, From<u64>, From<i64>",R)])
p("C03","Arithmetic on numbers is exact while the operands are exact",
 "For integers and fractions, the four operations and negation return an exact number (never a floating-point one) with the mathematically exact value, and integers stay integers under addition, subtraction, multiplication and negation; exact division by zero never yields an ordinary number. When a floating-point operand takes part, the result is the corresponding real-number operation on the operands' values up to floating-point rounding. Shortcuts for 0 and 1 obey the same rule.",
 "all pairs of numbers of every kind (integer, fraction, floating point, the constants 0, 1, pi, e), as long as no integer overflows",
 "Tests add and multiply small numbers of each kind; mixed kinds, negative fractions, results that become whole, and zero/one shortcuts with each kind are sampled once or never.",
 [V,N,R],[("operators of the number value and of the tagged number",V),("operators with shortcuts, wrap_val",N)])
p("C04","Classification of a number always agrees with its value",
 "A number reports being zero (one) exactly when it is exact and its value is 0 (1), whether it was written as a constant, converted, or computed. It reports being pi or e only when it is the predefined constant, and the predefined constants do. Its sign is -1, 0 or 1 according to its value.",
 "every number obtained from constants, conversions and any sequence of arithmetic operations",
 "Tests look at the classification of a few literals; a stale or missing classification shows only on particular histories of operations (e.g. 1/2+1/2, 3/3, 5-5, -0/7).",
 [N,V,"src/smart_num/special_const.rs"],[("tag recomputation in wrap_val and From; is_zero, is_one, is_pi, is_e, sign",N),("is_zero, is_one",V)])
p("C05","Conversions between number kinds lose nothing",
 "Converting any machine integer or floating-point value into a number keeps the value; an exact number converts to a fraction of the same value and a floating-point one does not; only integers convert back to an integer, with the same value; conversion to floating point gives the value up to rounding. An expression converts to a number or fraction exactly when it is a single number (of an exact kind for a fraction), and closeness tests on numbers and on numeric expressions answer whether the absolute difference is below the tolerance.",
 "all values of i8..i64, u8..u64, f32, f64; all numbers; all expressions",
 "Tests convert a few small integers and two floats; u64 above i64::MAX, i64::MIN and negative fractions are not sampled.",
 [V,N,T,"src/ast/op/operand.rs"],[("From impls, to_i64, to_f64, ToRational, IsClose, new_rational",V),("same on tagged numbers",N),("ToSmartNum, ToRational, near",T)])
p("C06","Numeric simplification preserves the meaning of an expression",
 "Simplifying an expression numerically gives an expression that, for every assignment of values to the variables for which the original is defined, is defined and has the same value (floating-point constants taken as real numbers). This holds for every nesting of negation, sum, difference, product, quotient, power, sin, cos, exp and ln.",
 "all well-formed expressions, all assignments of real values to variables",
 "Tests simplify about a dozen closed expressions; the rules interact with operand kinds, signs and positions (0-x, x/1, 1^x, x^0, ln e, cos pi, ...) in every combination and nesting.",
 ["src/compute/num_aggregate"],[("num_aggregate and its ten rules","src/compute/num_aggregate/rules"),("special values of sin, cos, exp, ln","src/compute/num_aggregate/rules")])
p("C07","Closed exact arithmetic is simplified to one exact number",
 "An expression built only from integers and fractions with negation, addition, subtraction, multiplication and division, in which no division by zero occurs, is simplified to a single exact number, never to a floating-point approximation or a remaining operation.",
 "all closed exact arithmetic expressions of any size (barring integer overflow)",
 "Tests fold a few two-operand expressions; deep nestings and results that pass through 0 or 1 take other branches.",
 ["src/compute/num_aggregate",N,V],[("num_aggregate rules for neg, add, sub, mul, div","src/compute/num_aggregate/rules")])
p("C08","The derivative is the derivative",
 "Differentiating an expression with respect to a variable always succeeds, and the result equals the partial derivative given by the rules of calculus at every assignment where the expression is differentiable by those rules (for a power: with a literal exponent wherever the power rule applies, otherwise for a positive base). The same holds whichever calling form (by value, by reference, by variable) is used.",
 "all well-formed expressions, all variables, all assignments of real values",
 "Tests compare the derivative of a few functions structurally; the chain rule under every operator, several variables, constant factors, variable exponents and nested quotients are not covered.",
 ["src/compute/derivative"],[("derivative and its ten rules","src/compute/derivative/rules")])
p("C09","Only a variable can be differentiated by, substituted, or expanded in",
 "Differentiation, substitution, Taylor expansion and limits whose target expression is not a variable report an error; they never treat a number or a compound expression as a variable. With a variable as the target, differentiation, substitution and Taylor expansion always succeed.",
 "all expressions as subject and as target",
 "Tests use variables as targets; only a couple of error cases are sampled.",
 ["src/compute",T,"src/ast/op/operand.rs"],[("conversion of an expression to an optional variable",T),("wrappers taking an expression as the target","src/compute/{derivative,substitute,limit}/mod.rs, src/compute/taylor_expansion/partial_expansion.rs")])
p("C10","Substitution replaces every occurrence and nothing else",
 "Substituting an expression for a variable yields exactly the original expression with each occurrence of that variable replaced by the new expression, simultaneously and without touching other variables, numbers, operators or operand order. Hence the result's value is the value of the original with the variable set to the value of the replacement, also when the replacement contains the variable itself.",
 "all expressions, variables and replacements",
 "Tests substitute in two or three expressions; nesting depth, repeated occurrences, replacements containing the same variable and operand order of non-commutative operations are open.",
 ["src/compute/substitute/mod.rs"],[("substitute","src/compute/substitute/mod.rs")])
p("C11","Taylor expansions have the right coefficients",
 "Expanding an expression in a variable around a point to order n returns exactly n+1 coefficients, the k-th equal to the k-th derivative at the point divided by k factorial wherever that is defined; the residual is the (n+1)-th derivative, and the variable, point and order recorded are the ones asked for. No coefficient mentions a variable that occurs neither in the expression nor in the point. The printed expansion reads as the sum of the coefficients times the powers of (variable - point).",
 "all expressions, variables, expansion points (numbers or expressions) and orders (below the factorial overflow at 21)",
 "Tests expand two functions at 0 to a fixed order; other points, symbolic points and the pairing of coefficient, factorial and derivative at every order are not sampled.",
 ["src/compute/taylor_expansion/partial_expansion.rs"],[("taylor_expansion loop","src/compute/taylor_expansion/partial_expansion.rs"),("Display of the expansion","src/compute/taylor_expansion/partial_expansion.rs")])
p("C12","A reported limit is the limit",
 "Whenever a limit computation reports a result, the expression really behaves that way as the variable approaches the point: it tends to the reported value, tends to zero, is unbounded in absolute value, or stays bounded, as reported. (Values the simplifier does not recognise as the number zero are taken to be non-zero, the engine's documented assumption.)",
 "all expressions, variables, target points and numbers of attempts",
 "Tests take a handful of limits; each rule chooses among rewritings, L'Hopital steps and the limit algebra depending on the behaviours of the operands, and only a few combinations are sampled.",
 ["src/compute/limit"],[("limit and its rules","src/compute/limit/rules"),("L'Hopital loop","src/compute/limit/rules/div.rs")])
p("C13","Every produced expression is well-formed and invents no variable",
 "Every constructor and every transformation (simplification, differentiation, substitution, limits, Taylor expansion) applied to well-formed expressions gives a well-formed expression: every operator has its right number of operands and its own symbol and binding strength, and every number is valid and correctly classified. A constructor builds exactly the requested operation on the given operands in the given order, and two operators compare equal exactly when they are the same operation. Simplification, differentiation and limits never introduce a variable that did not occur in their inputs.",
 "all well-formed inputs to all constructors and transformations",
 "Tests compare a few results structurally; operand order and operator data of every constructor form and calling form are not covered.",
 ["src/math_op","src/ast","src/compute"],[("operator constructors","src/math_op"),("transformations","src/compute")])
p("C14","Printed expressions read back with the same meaning",
 "The text printed for an expression, read with the usual precedence (unary minus and sums loosest, then products and quotients grouped to the left, then powers, then functions), denotes an expression with the same value; parentheses appear wherever they are needed, including around negative numbers and fractions used as operands. Numbers print as their exact value (floating-point ones with three decimals), the constants as 0, 1, pi and e, variables by name, and limit results as their value, 0, infinity or ~.",
 "all well-formed expressions (function names are printed directly before their argument)",
 "Tests print four expressions; every pair of adjacent operators on either side needs its own decision about parentheses.",
 [T,N,V,R,"src/ast/op/operator.rs"],[("to_string_raw and number priorities",T),("Display of numbers",V)])
p("C15","The algebra of limit behaviours is sound",
 "Negating, adding, subtracting, multiplying or dividing limit behaviours (tends to zero, unbounded, bounded, tends to a given non-zero value) gives only a behaviour implied by the laws of limits, and a value result is exactly that operation on the operand values. An error is reported only for indeterminate combinations such as infinity minus infinity, zero times infinity, zero over zero, infinity over infinity, or division by a merely bounded quantity.",
 "all pairs of behaviours, with all expressions as values",
 "Tests combine few pairs; the tables have 16 entries per operation and each must be right for every value expression.",
 ["src/compute/limit/limit_expression.rs"],[("operators on limit behaviours","src/compute/limit/limit_expression.rs")])
p("C16","Nothing but integer overflow can abort a computation",
 "On well-formed inputs no operation of the library panics, indexes out of bounds, unwraps a missing value or reaches unfinished code; the only permitted abort is the arithmetic overflow check of 64-bit integers. Inputs without a result are reported as errors or left symbolic.",
 "all public operations on all well-formed inputs",
 "Tests visit a small part of the operator/operand combinations; unreachable-looking branches and unfinished cases show only on the combination that reaches them.",
 ["src"],[("pattern matches, unwraps and child indexing throughout","src/compute, src/ast, src/smart_num")])
p("C17","Simplification, differentiation, substitution and printing terminate",
 "Numeric simplification, differentiation, substitution, Taylor expansion, printing and fraction reduction terminate on every input: each recursive step works on a strictly smaller expression or number.",
 "all well-formed inputs",
 "A test can only show termination of the inputs it runs.",
 ["src/compute",T,R],[("recursion over operands","src/compute/{num_aggregate,derivative,substitute}"),("Euclid's algorithm",R)])
p("C18","Simplified expressions are in normal form",
 "The result of numeric simplification contains no operation that the simplifier's identities apply to: no sum, difference, product or quotient of two numbers, no negated number or double negation, no term or subtrahend that is zero, no difference from zero, no factor zero or one, no zero dividend, no exponent zero or one, no sine or cosine of 0 or pi, no exponential of 0, 1 or a logarithm, and no logarithm of 1, e or an exponential (numbers as the library classifies them). The result never has more operations than the original, and an expression already of this form is returned unchanged, so simplifying twice is the same as simplifying once.",
 "all well-formed expressions",
 "Tests simplify a handful of small expressions; whether an identity still applies after the operands were simplified depends on what they were simplified to, at every depth.",
 ["src/compute/num_aggregate"],[("simplification rules","src/compute/num_aggregate/rules"),("num_aggregate","src/compute/num_aggregate/mod.rs")])
p("C19","Limits of continuous expressions are found",
 "For an expression built from numbers and variables by negation, addition, subtraction, multiplication, sine, cosine and division by a number other than zero, computing the limit (in any variable, at any point, with any number of tries) reports a value or that the expression tends to zero; never an error, unboundedness or mere boundedness. In particular, a number other than zero is reported as its own limit. Combining two such behaviours by negation, addition, subtraction or multiplication, or dividing one by a value other than zero, gives such a behaviour again.",
 "all well-formed expressions of this form, all points, all numbers of tries",
 "Tests compute a few limits; whether every rule reports the exact behaviour rather than an error or a weaker one depends on the combination of behaviours its operands have.",
 ["src/compute/limit"],[("limit rules","src/compute/limit/rules"),("limit","src/compute/limit/mod.rs"),("LimitExpression operations","src/compute/limit/limit_expression.rs")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
