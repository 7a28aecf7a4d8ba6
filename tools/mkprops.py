import json
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mechanism]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
D="src/polynomial/polynomial.rs";S="src/polynomial/sparsepolynomial.rs";M="src/polynomial/monomial.rs";B="src/polynomial/binomial.rs";Q="src/polynomial/trinomial.rs"
PM="src/polynomial/poly_math.rs";ST="src/strings.rs";T="src/terms.rs";IN="src/polynomial/integral.rs";FR="src/polynomial/find_roots.rs";NU="src/numerics.rs"
HK="src/numerics.rs traits are private; `--cfg rustnomial_sim` makes the module public so that a simulated coefficient type can implement them"

p("C01","An interrupted whole-polynomial assignment leaves its target as it was",
 "If multiplying a polynomial in place by another polynomial, reducing it in place to a remainder, or shifting it in place is interrupted before it returns, because a coefficient operation panics or memory runs out, the target afterwards still denotes exactly the polynomial it denoted before the call. Repeating the same call without the interruption then gives the exact result.",
 ["fault_sequences","crash_points","histories","inputs"],
 "for every target and operand (dense, sparse, monomial, fixed size; with or without stored zero coefficients), every point inside the call at which a coefficient operation can panic or an allocation can fail, and every history before and after it",
 "No existing test interrupts an operation: all tests use built-in numbers that never panic in the tested cases, so the state left behind by an abandoned call is never observed.",
 [D,S,M,B,Q],[("product is built in a fresh buffer, then assigned","MulAssign for Polynomial / SparsePolynomial / Monomial"),("remainder is computed, then assigned","RemAssign for Polynomial / SparsePolynomial"),("shifted terms are built, then assigned","ShlAssign / ShrAssign for all types")],
 state=[("terms / coefficients / coefficient+deg","the target polynomial","public fields of the five polynomial types")],
 observe=["the target after catch_unwind of *=, %=, <<=, >>="],hook=HK)
p("C02","An interrupted in-place update never corrupts a coefficient",
 "If adding to, subtracting from, or scaling a polynomial in place (by another polynomial, by a scalar, or by a single term) is interrupted by a panic in coefficient arithmetic, then at every degree the target holds either its coefficient from before the call or the coefficient the completed call would have given. No coefficient is lost, invented, duplicated or moved to another degree.",
 ["fault_sequences","crash_points","histories","inputs"],
 "for every target and operand of every polynomial type, every coefficient operation inside the call at which the panic can strike (including ordinary integer overflow), and every history",
 "Existing tests only look at targets of calls that returned; integer overflow inside a compound assignment, the commonest interruption in debug builds, is not tested at all.",
 [D,S,M,B,Q],[("element-wise update with one coefficient operation per stored coefficient","AddAssign / SubAssign / MulAssign<N> / DivAssign<N>"),("the new leading block is complete before it is spliced in","SubAssign<&Polynomial>"),("zero padding is spliced in before the coefficient is touched","add_term / try_sub_term")],
 state=[("terms / coefficients","the target polynomial","public fields")],observe=["the target after catch_unwind of +=, -=, *= scalar, /= scalar, add_term, try_add_term, try_sub_term"],hook=HK)
p("C03","A rejected term changes nothing, an accepted term is exact",
 "Adding or subtracting one term either succeeds and changes exactly the coefficient of that degree by exactly that amount, or returns an error, and then the polynomial still denotes what it denoted before. A type that can hold a term never rejects it, a type that cannot (degree too large for a fixed-size type, second degree in a monomial, negative coefficient of an unsigned type) never accepts it, and the error names that reason.",
 ["histories","fault_sequences","inputs"],
 "for every history of accepted, rejected and interrupted term additions and subtractions on every polynomial type, signed and unsigned coefficients",
 "Existing tests never call try_add_term or try_sub_term in a state that rejects, so neither the error nor the state after it is checked.",
 [D,S,M,B,Q,"src/err.rs"],[("bounds are tested before anything is written","try_add_term / try_sub_term of the five types"),("capability test before padding","try_sub_term, CanNegate")],
 observe=["return value and public state after MutablePolynomial calls"],hook=HK)
p("C04","Streamed accumulation stops at the first failure, with an exact prefix",
 "Adding, subtracting or multiplying a stream of terms into a sink applies the terms the stream delivers, in order, until the stream ends or the sink rejects a term; a rejection is returned unchanged, and nothing is read from the stream or offered to the sink after it. Whatever ends the transfer (end of stream, rejection, panic in the stream, in the sink or in coefficient arithmetic), the sink holds exactly the effect of the terms accepted before that point.",
 ["fault_sequences","histories","inputs"],
 "for every term stream (any length, repeated degrees, streams that end early or yield again after their end), every sink (the five polynomial types and caller-supplied ones) and every point at which stream, sink or arithmetic can fail",
 "Existing tests feed complete streams into a dense sink that accepts everything; no stream ends early, no sink rejects, and the error paths are never executed.",
 [PM],[("? after each try_add_term / try_sub_term","add_poly, sub_poly, mul_poly_vec"),("results of all operands are collected, the first error wins","poly_add!, poly_sub!")],
 observe=["calls received by a caller-supplied sink and stream; the sink's final value"],hook=HK)
p("C05","Formatting reports every sink failure and writes only a prefix",
 "Formatting a polynomial, an integral or an error value into a text sink reports failure exactly when a write to the sink (or the formatting of a coefficient) failed. After a failed write nothing more is written, so that what the sink accepted is always a prefix of the complete text, and with no failure it is the complete text.",
 ["fault_sequences","inputs"],
 "for every polynomial of every type, its integral, every parse error, and every sink behaviour: failure at any write, after any number of accepted bytes, once or permanently, and any panic of the sink",
 "Existing tests format into a growing String, which never fails.",
 [ST,IN,M,"src/err.rs"],[("every write! result is propagated with ? or returned","fmt_poly!, write_leading_term, write_trailing_term, Display for Integral / Monomial / errors")],
 observe=["bytes accepted and calls received by a caller-supplied fmt::Write, and the returned fmt::Result"],hook=HK)
p("C06","Operations are exact under any interleaving and after any faults",
 "Arithmetic, shifting, powers, division, comparison, evaluation, derivative, integral, term access or conversion to a wider coefficient type that is not itself hit by a fault completes and gives exactly the mathematical result for its operands: no matter which other callers are in the middle of operations on the same shared polynomials, whether coefficient arithmetic calls back into the library, and which earlier operations in the history were interrupted, rejected or produced stored zero coefficients. Operands it only borrows are never changed, also when it is interrupted.",
 ["schedules","histories","fault_sequences","inputs"],
 "for every interleaving of callers at coefficient-operation granularity, every history of these operations over shared and owned polynomials of all five types and all built-in coefficient types, and every placement of faults in other operations; coefficients from an exact field, or integers and floats as long as no intermediate value overflows or is rounded; dividing by zero, and a degree that the coefficient type cannot represent exactly (derivative and integral panic and never use a rounded or wrapped one), are documented failures",
 "Existing tests run single calls on freshly built, trimmed operands in one thread; they never reuse the result of a cancelled or interrupted operation, never nest or interleave calls, and cover no division at all.",
 [D,S,M,B,Q,IN,NU,"src/macros.rs"],[("no shared or static state; all intermediate results are local","all operators"),("leading zeros skipped before sizes are computed","first_nonzero_index, first_term, slice_mul, Shr, div_mod"),("borrowed operands are only read","&self methods and reference operators"),("degrees are converted exactly or the call panics","TryFromUsizeContinuous / TryFromUsizeExact in src/numerics.rs"),("coefficients are widened one by one","upcast! in src/macros.rs")],
 observe=["results of all operators and methods; public state of borrowed operands"],hook=HK)
p("C07","Every operation finishes in bounded work, and a retry after a fault succeeds",
 "Every operation finishes after a number of coefficient operations bounded by a fixed polynomial in the sizes of its operands and results, whatever the operands and whether coefficient division is exact, truncating or rounding. Once faults stop, repeating an operation that was interrupted completes within the same bound.",
 ["histories","fault_sequences","inputs"],
 "for all operands of all types including zero polynomials, stored zeros, operands left behind by interrupted calls, non-divisible integers and rounding or non-finite floats; all operators, powers, division, remainder and root finding (whose roots themselves are C20)",
 "Existing tests contain no division, remainder or power of non-trivial operands outside two happy-path cases; a loop that fails to make progress for some operand is invisible to them.",
 [D,S,FR],[("each elimination step removes the leading term or stops","div_mod, Rem, RemAssign, div in find_roots.rs"),("exponent is halved or decremented","pow")],
 observe=["number of coefficient operations until return"],hook=HK)
p("C08","What a polynomial shows depends on its value, not on its history",
 "Equality, degree, zero test, term lookup, term listing, evaluation, formatting, derivative, integral and root finding of a polynomial depend only on the polynomial it denotes: they are the same as for a freshly built polynomial with the same non-zero coefficients. Stored zero coefficients, leading zeros, earlier cancellations, resets and interrupted operations never show.",
 ["histories","fault_sequences","inputs"],
 "for every history of operations, rejections and interruptions that ends in a given mathematical value, in every polynomial type and coefficient type",
 "Existing tests observe freshly built values; the few that set stored zeros check equality, trim or formatting of one constant.",
 [D,S,M,B,Q,ST,IN],[("zero coefficients are filtered on observation","ordered_term_iter, degree, PartialEq, term_with_degree"),("zero terms are skipped in evaluation","Evaluable for SparsePolynomial / Monomial")],
 observe=["all read-only methods of SizedPolynomial, Evaluable, PartialEq, Display, Derivable, Integrable"],hook=HK)
p("C09","A failed allocation is contained and loses no memory",
 "If an allocation fails inside an operation, the operation either still gives the exact result or is abandoned (it never completes with anything else), its borrowed operands unchanged and its in-place target holding, at every degree, the old or the completed coefficient; every other polynomial is unaffected. All memory obtained inside operations, completed or abandoned, is returned once the polynomials are dropped, and the same operation succeeds exactly when memory is available again.",
 ["fault_sequences","crash_points","histories","inputs"],
 "for every operation, every allocation inside it as the failing one, and every history; allocation failure surfaces as a panic, as it does by default in the no_std programs this crate is built for",
 "No existing test makes an allocation fail or counts live memory.",
 [D,S,"src/lib.rs"],[("containers own all memory, no unsafe code, no leaked buffers","all types"),("buffers are allocated before the target is touched","ShlAssign, ShrAssign, MulAssign, add_term padding")],
 observe=["target, operands and the allocator's live count after catch_unwind"],hook="none: the global allocator and the allocation error hook of the harness")
p("C10","Stored text survives storage faults: intact is exact, damaged is never misread",
 "The text of a polynomial that reached storage completely parses back to an equal polynomial of the same type, for every coefficient type and every finite coefficient. Text that was cut off, lost in part or damaged is either rejected with an error or read as exactly the sum of the well-formed terms it still spells out; parsing never panics on it unless the coefficients themselves overflow.",
 ["crash_points","fault_sequences","inputs"],
 "for every polynomial of every type with signed, unsigned and finite floating coefficients (extreme values included), every crash point during the write, and every loss, truncation, duplication or byte damage of the stored text",
 "Existing tests parse a dozen hand-written strings and never parse what formatting produced; truncated and damaged text is limited to a dangling caret.",
 [ST,T,"src/err.rs"],[("sign, coefficient, x, caret and degree are written so that the tokenizer can split them again","write_leading_term / write_trailing_term"),("each token must parse completely","TermTokenizer, FromStr for Term, poly_from_str!")],
 observe=["Display output handed to storage and the FromStr result after recovery"])
p("C20","Root finding returns roots of the polynomial",
 "Every value returned by root finding is, within floating-point tolerance, a root of the polynomial, and the classification (none, infinite, real, complex) is right.",
 ["inputs"],"for all coefficient values","Existing tests sample about ten polynomials.",[FR,M,B,Q],[("closed formulas and Sturm sequences","find_roots.rs")],observe=["roots(), root()"])
p("C21","Factorisations multiply back to the quadratic",
 "The real and complex linear factors of a quadratic, multiplied together with the returned leading coefficient, give the quadratic back.",
 ["inputs"],"for all coefficient values","Existing tests sample a few trinomials.",[Q],[("complex_factors, real_factors",Q)],observe=["complex_factors, real_factors, discriminant"])
p("C24","Tolerant parsing of separators, spacing and implicit parts",
 "Spaces, commas and underscores inside terms, implicit coefficients and degrees, and repeated or unordered degrees are read as documented; anything else is rejected with the matching error.",
 ["inputs"],"for all strings","Existing tests sample about 25 strings.",[T,ST],[("FromStr for Term, TermTokenizer",T)],observe=["FromStr"])
p("C25","Floating-point evaluation and division stay within rounding error",
 "Evaluation, definite integrals and division with floating-point coefficients agree with exact arithmetic up to accumulated rounding error.",
 ["inputs"],"for all finite coefficients and points","Existing tests use small integers as floats.",[D,S,IN],[("Horner evaluation, long division",D)],observe=["eval, div_mod, Integral::eval"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,sch)
print(len(P))
