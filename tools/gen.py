#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json, so that the two stay in step."""
import json, os

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, mech, technique, note, state=None, observe=None):
    mechanism = [{"name": n, "where": w} for n, w in mech]
    files = sorted({w.split(":")[0] for _, w in mech})
    anchors = {"files": files, "mechanism": mechanism, "hook_needed": None}
    if state:
        anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe:
        anchors["observe_at"] = observe
    assert len(title) <= 80, title
    P.append((
        {
            "id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": anchors,
        },
        {
            "property": id,
            "quick_cmd": "python3 run.py %s --tier quick" % id,
            "thorough_cmd": "python3 run.py %s --tier thorough" % id,
            "technique": technique,
            "level": "exploration",
            "level_note": note,
        },
    ))


GEN = "Trusted: the harness's own decimal and storage model (harness/oracle). "

prop("C01", "Text is parsed to exactly the decimal it denotes, or rejected",
     "Every text of the documented form (surrounding whitespace, sign, digits with a decimal point, exponent; or NaN in any case) "
     "parses to exactly the decimal it denotes, with as many fractional digits as it shows. "
     "Every other text is rejected, with an error that tells empty text, invalid text and overflow of the format's range apart; no text makes parsing panic.",
     ["inputs"], "all strings, including lengths and exponents at the limits of the format",
     "The tests parse a few dozen fixed literals; what must hold ranges over all placements of the decimal point relative to the groups of four digits, exponents, and malformed text.",
     [("parser", "src/parse.rs: parse_decimal, extract_exponent, extract_nan"), ("text to base-10000 digits", "src/parse.rs: parse_str"),
      ("range check", "src/var.rs: make_result"), ("error kinds", "src/error.rs: NumericParseError")],
     "generated and mutated literals against an independent parser",
     GEN + "Holds on every generated literal, mutant and limit case; not a proof over all strings.")

prop("C02", "Display shows the exact decimal, and parsing it gives the value back",
     "The text of a value is its exact decimal expansion with exactly its scale's number of fractional digits, a minus sign only for values below zero, and NaN for NaN. "
     "Parsing that text gives the same value at the same scale, for every value the format can hold. A destination that fails part way gets a beginning of the text and its error is passed on.",
     ["inputs"], "all representable values: digits, weight, sign and display scale",
     "The tests show some thirty values; the place of the decimal point, leading zeros in groups and padding beyond the stored digits vary with every weight and scale.",
     [("writer", "src/var.rs: write"), ("Display", "src/num.rs: fmt"), ("reader", "src/parse.rs: from_str")],
     "round trip and differential against a model writer", GEN + "Samples the value space including the limits of weight and scale.")

prop("C03", "Addition and subtraction are exact",
     "The sum and the difference of two numbers are exact, shown with the larger of the two scales. "
     "The checked forms report failure only when the exact result is beyond the format's range, and the operands stay as they were.",
     ["inputs"], "all pairs of finite values, near and far apart in size, of either sign, with cancellation",
     "Tests add fixed pairs; carries and borrows across groups, alignment of different weights and cancellation are data dependent.",
     [("magnitude addition", "src/var.rs: add_abs"), ("magnitude subtraction", "src/var.rs: sub_abs"), ("sign cases", "src/var.rs: add_common, sub_common"),
      ("range check", "src/var.rs: make_result")],
     "differential against exact big-integer arithmetic", GEN + "Samples operand pairs, weighted to related operands that cancel or carry.")

prop("C04", "Multiplication is exact",
     "The product of two numbers is exact, shown with the sum of their scales. "
     "The checked form reports failure only when the exact product, at that scale, does not fit the format.",
     ["inputs"], "all pairs of finite values up to the largest the format holds",
     "Tests multiply small fixed pairs; the deferred carry propagation of long products only starts with long operands of large digits.",
     [("product with deferred carries", "src/var.rs: mul_common"), ("checked form", "src/num.rs: checked_mul")],
     "differential against exact big-integer arithmetic", GEN + "Samples operand pairs, with a group of long runs of nines.")

prop("C05", "Division is correctly rounded at the documented scale",
     "A quotient is the exact quotient rounded half away from zero at its result scale: at least 16 significant digits and no fewer fractional digits than either operand. "
     "Truncating division gives the exact whole quotient; division by zero and only a result beyond the format's range make the checked forms report failure.",
     ["inputs"], "all pairs of finite values; exact quotients, ties, quotients just off a tie, trial digits that need correction",
     "Correction of trial quotient digits happens for rare leading digits, and rounding at a tie for rare remainders; fixed tests hit neither systematically.",
     [("long division", "src/var.rs: div_common"), ("result scale", "src/var.rs: select_div_scale"), ("truncating division", "src/var.rs: checked_div_trunc")],
     "differential against exact big-integer division", GEN + "Samples pairs, with constructed ties and hard trial digits.")

prop("C06", "Remainder is exact and completes truncating division",
     "The remainder is exactly a - trunc(a/b)*b, shown with the larger of the two scales: it has the sign of the dividend and is smaller in magnitude than the divisor. "
     "The checked form reports failure for a zero divisor only.",
     ["inputs"], "all pairs of finite values, near multiples included",
     "A wrong quotient digit shows up in the remainder only for particular operands; tests use fixed pairs.",
     [("remainder", "src/var.rs: mod_common"), ("checked form", "src/num.rs: overflowing_rem")],
     "differential against exact arithmetic, and the division identity", GEN + "Samples pairs, weighted to exact multiples and their neighbours.")

prop("C07", "Rounding, truncation, ceiling and floor are exact at every scale",
     "Rounding to a scale (negative ones included) gives the nearest such decimal, ties away from zero; truncation drops digits; ceiling and floor give the nearest whole number not below and not above. "
     "The result shows the requested number of fractional digits (none for a negative scale, or for ceiling and floor), and the scale asked for is limited to the format's range instead of failing.",
     ["inputs"], "all values and all requested scales, beyond the limits included",
     "Carries from rounding ripple through any number of groups and can lengthen the number; tests fix a few values and scales.",
     [("rounding with carry", "src/var.rs: round_common"), ("truncation", "src/var.rs: trunc_common"), ("ceil, floor", "src/var.rs: ceil_common, floor_common"),
      ("clamping of the scale", "src/var.rs: round, trunc")],
     "differential against model rounding", GEN + "Samples values and scales, with constructed ties and chains of nines.")

prop("C08", "Comparison is one total numeric order, through every type combination",
     "Comparison orders numbers by numeric value regardless of scale, NaN equal to itself and above every number. "
     "All comparison operators and traits, on owned values, borrowed values and references in any combination, agree with that one order, so sorting and ordered collections behave.",
     ["inputs"], "all pairs and lists of values, equal ones with different scales, NaN",
     "Consistency is a relation between a dozen trait implementations and between triples of values; tests compare fixed pairs.",
     [("comparison", "src/var.rs: cmp_abs, cmp_common"), ("shortcut on storage", "src/num.rs: cmp"), ("trait combinations", "src/ops.rs: PartialOrd, Ord, PartialEq impls")],
     "differential against model order; model-based sorting and ordered maps", GEN + "Samples pairs and lists.")

prop("C09", "Equal values hash equally; normalize gives one text per value",
     "Values that compare equal hash equally, whatever their scales and whether owned or borrowed, so hashed collections find them. "
     "The normalized text is the exact value without trailing fractional zeros, the same for equal values and different for different ones.",
     ["inputs", "histories"], "all pairs of equal values with different scales; histories of hash map operations",
     "Equality of hashes quantifies over all representations of a value; tests compare a few pairs.",
     [("hash", "src/num.rs: Hash for Numeric, NumericBuf"), ("normalize", "src/var.rs: normalize")],
     "metamorphic (equal values), model-based hash map histories", GEN + "Uses the standard hasher and one that records what is written.")

prop("C10", "Integer conversions are exact in range and errors outside",
     "Every integer of every primitive type, and bool, converts to exactly that number. "
     "A number converts to an integer type as itself rounded half away from zero when that is within the type's range; otherwise it is an out-of-range error, NaN is an error as not convertible, and nothing wraps or panics.",
     ["inputs"], "all primitive integers; all values, especially within one unit of a type's limits",
     "The limits of twelve types with rounding on either side are more than the tests' fixed list.",
     [("integers in", "src/convert.rs: from_signed, from_unsigned"), ("integers out", "src/convert.rs: into_signed, into_unsigned")],
     "differential against exact arithmetic and native integers", GEN + "Weighted to limits, halves and powers of the digit base.")

prop("C11", "Float conversions are correctly rounded, and round trip",
     "A finite float becomes the decimal of its 15 (double) or 6 (single) significant digits, NaN becomes NaN and infinities are an error. "
     "A number becomes the nearest double, infinite or zero when it is beyond that range, and the nearest single, where one that a double holds but a single cannot (too large or too small) is an out-of-range error. None of it depends on the locale the program has set.",
     ["inputs","configurations"], "all finite floats, subnormals included; all values, near the midpoints between floats and at the limits of range",
     "Correct rounding is decided by digits arbitrarily far along; tests use short decimals.",
     [("floats in", "src/convert.rs: from_floating"), ("floats out", "src/convert.rs: TryFrom<&NumericVar> for f32, f64")],
     "differential against exact decimal expansions of floats", GEN + "Between subnormals either neighbour of a tie is accepted.")

prop("C12", "The stored form is canonical, self-describing and preserves the value",
     "The bytes of a value decode, by the published storage layout, to exactly that value and scale, with the recorded length equal to their number, no superfluous digits, and the short header exactly when it can be used. "
     "Reading such bytes back gives an equal value that behaves the same.",
     ["inputs", "configurations"], "all values, with weights and scales at the limits of short and long headers; both byte orders of the length word",
     "Header packing depends on the sign and on every bit of scale and weight; tests check a handful of values by round trip only, which cannot see two errors that cancel.",
     [("header layout", "src/binary.rs: set_header, weight, dscale, sign"), ("choice of header", "src/binary.rs: can_be_short"), ("length word", "src/binary.rs: encode_len, decode_len"),
      ("stripping of zeros", "src/var.rs: strip")],
     "differential against an independent decoder and encoder of the layout", GEN + "Runs with both byte orders of the length word.")

prop("C13", "Serialization round trips in text and binary formats",
     "A value serialized by a human-readable format is its text, and by any other its bytes; deserializing gives back the same value at the same scale, owned or borrowed.",
     ["inputs", "configurations"], "all values, over text and binary data formats, and both byte orders of the length word",
     "The test round trips three values through two formats.",
     [("serialize", "src/num.rs: Serialize for NumericBuf, Numeric"), ("deserialize", "src/num.rs: Deserialize for NumericBuf, &Numeric")],
     "round trip through JSON-like, byte, sequence and CBOR-like formats", GEN + "The data formats are small implementations in the harness and serde's value deserializers.")

prop("C14", "Deserializing arbitrary input is an error or a valid value, never worse",
     "Whatever bytes, text or other data a value is deserialized from, the result is an error or a well-formed value that every operation can use. "
     "No input makes it panic, read outside the input, or produce a value that is not one the format defines.",
     ["inputs", "fault_sequences"], "all byte strings (truncated, corrupted and crafted headers, lengths and digits; any alignment), texts and wrongly shaped data",
     "Tests only deserialize what was serialized.",
     [("validation", "src/binary.rs: is_valid"), ("visitors", "src/num.rs: visit_bytes, visit_borrowed_bytes, visit_str")],
     "mutation fuzzing of encodings against an independent validator", GEN + "Structured mutations of valid encodings, random bytes; both byte orders of the length word.")

prop("C15", "A type modifier rounds to its scale and reports overflow of its precision",
     "Exactly the modifiers with precision 1 to 1000 and scale 0 to precision are accepted, and they report the parts they were made of. "
     "Applying one rounds the value to its scale, and reports overflow exactly when the rounded value needs more digits before the decimal point than precision less scale; NaN passes, and the default modifier changes nothing.",
     ["inputs"], "all modifiers and values, especially those a rounding away from the precision's limit",
     "Overflow is decided by the leading digit after a rounding that may carry; tests use nine values.",
     [("validation and packing", "src/typmod.rs: new, extract"), ("application", "src/var.rs: apply_typmod")],
     "differential against exact rounding", GEN + "Weighted to values at the limit of the precision.")

prop("C16", "Scientific notation shows exactly the significant digits of the value",
     "Formatted in scientific notation, a value shows all its significant digits without trailing zeros, one non-zero digit before the point, and a signed exponent of at least two digits; zero is 0e+00 and NaN is NaN. "
     "The upper-case form differs in the letter only, and parsing the text gives an equal value. A destination that fails part way gets a beginning of the text and its error is passed on.",
     ["inputs"], "all values, from the smallest to the largest exponent the format has",
     "Tests cover some sixty fixed values of moderate exponent.",
     [("sci writer", "src/var.rs: write_sci"), ("digits to show", "src/var.rs: select_sci_scale"), ("traits", "src/num.rs: LowerExp, UpperExp")],
     "differential against a model writer, and round trip", GEN + "Samples values over the whole range of exponents.")

prop("C17", "Square root is correctly rounded",
     "The square root has at least 16 significant digits and no fewer fractional digits than its argument, and is the exact root rounded at that scale; perfect squares give exact roots. "
     "Negative arguments are refused with the documented panic, NaN gives NaN.",
     ["inputs"], "all non-negative values from 10^-16383 to the largest",
     "The result depends on how many Newton steps are taken and on the scale each is rounded at; tests check a few roots.",
     [("Newton iteration", "src/var.rs: sqrt_common"), ("result scale", "src/var.rs: sqrt")],
     "differential against integer square roots", GEN + "Within 0.500002 units of the last place, at the stated scale.")

FN = "Within the stated share of a unit of the last place of an independent series evaluation with ten more digits. "

prop("C18", "Natural logarithm is accurate to the last place",
     "The natural logarithm has at least 16 significant digits (as far as the scale limit of 1000 allows) and no fewer fractional digits than its argument, and is within 0.51 units of its last place of the true value (one unit for arguments outside 10^-100 to 10^100). "
     "Zero and negative arguments are refused with the documented panics, NaN gives NaN.",
     ["inputs"], "all positive values, close to one, far below and far above it",
     "Accuracy depends on the range reduction and the number of series terms for the particular argument; tests check some twenty.",
     [("series and range reduction", "src/var.rs: ln_common"), ("size estimate and result scale", "src/var.rs: estimate_ln_dweight, ln")],
     "differential against an independent series evaluation", GEN + FN)

prop("C19", "Logarithms to any base are accurate to the last place",
     "The logarithm to a given base, and to base two and ten, has at least 16 significant digits and no fewer fractional digits than its operands (up to 1000), and is within 0.51 units of its last place of the true value. "
     "Zero and negative operands are refused with the documented panics, base one as a division by zero, and NaN gives NaN.",
     ["inputs"], "all pairs of positive values, exact powers and their neighbours included",
     "The scales both logarithms are computed to depend on the sizes of both; tests check some thirty pairs.",
     [("quotient of logarithms", "src/var.rs: log_common"), ("fixed bases", "src/var.rs: log2, log10")],
     "differential against an independent series evaluation", GEN + FN)

prop("C20", "The exponential is accurate to the last place, or reported out of range",
     "The exponential has at least 16 significant digits and no fewer fractional digits than its argument (up to 1000), and is within 0.51 units of its last place of the true value for arguments up to 6000 in magnitude. "
     "Beyond that it reports that there is no result; NaN gives NaN.",
     ["inputs"], "all values, up to and beyond the limits of range",
     "Accuracy depends on how often the argument is halved and on the working scale for the particular argument; tests check some thirty.",
     [("series", "src/var.rs: exp_common"), ("result scale", "src/var.rs: exp")],
     "differential against an independent series evaluation", GEN + FN)

prop("C21", "Integer powers are accurate, and exact where the scale allows",
     "A power with an integer exponent has at least 16 fractional digits and no fewer than the base (up to 1000), is within 0.51 units of its last place of the true value, and is exact whenever the exact power fits that scale. "
     "No result is reported only when the power is beyond the format's range; powers too small to show are zero, zero to a negative power is refused with the documented panic, and anything to the power zero is one.",
     ["inputs"], "all bases and all 32-bit exponents, bases close to one and results at the limits of the format included",
     "Working precision is estimated from the base's leading digits times the exponent; the error only shows for large exponents of particular bases.",
     [("repeated squaring", "src/var.rs: power_int"), ("dispatch", "src/var.rs: power_common, pow")],
     "differential against exact powers and a wide floating decimal", GEN + FN)

prop("C22", "Non-integer and very large powers are accurate to the last place",
     "A power with a non-integer exponent, or an integer exponent beyond 32 bits, has at least 16 significant digits and no fewer fractional digits than its operands (up to 1000) and is within 0.51 units of its last place of the true value; results too small to show are zero. "
     "A negative base is refused for non-integer exponents with the documented panic and takes the sign its parity gives for integer ones; results beyond the range of the exponential are reported as no result.",
     ["inputs"], "all bases and exponents, products with the logarithm up to the limits of range",
     "The scale of the inner logarithm depends on the size of the result; tests check some twenty pairs.",
     [("exp of a product", "src/var.rs: power_common"), ("checks of the operands", "src/var.rs: pow")],
     "differential against an independent series evaluation", GEN + FN)

prop("C23", "Factorial is exact up to the largest that fits",
     "The factorial of a whole number is exact, is one for zero and below, and is reported as having no result exactly from 32178 on.",
     ["inputs"], "all 64-bit integers; every factorial up to 32177",
     "The tests check a dozen arguments.",
     [("product", "src/var.rs: factorial"), ("interface", "src/num.rs: factorial")],
     "differential against exact factorials", GEN + "Dense below 2500, samples above, the topmost few on every run.")

prop("C24", "NaN propagates as documented and is never confused with a number",
     "An operation with a NaN operand gives NaN, without failing or panicking, also where the other operand is zero or out of domain; the exceptions are NaN to the power zero and one to the power NaN, which are one. "
     "NaN has no scale, is neither positive nor negative, equals only NaN and is above all numbers.",
     ["inputs"], "all operations, with NaN in either place and any other operand",
     "Tests combine NaN with a few numbers per operation; domain checks on the other operand come before or after the NaN check per operation.",
     [("NaN checks", "src/num.rs: checked_*, overflowing_*"), ("NaN in functions", "src/var.rs: pow, log, exp"), ("NaN order", "src/num.rs: cmp")],
     "enumeration of operations over generated operands", GEN + "All operations, generated other operands.")

prop("C25", "Negation, absolute value, sign, increment and queries are exact",
     "Negation and absolute value change nothing but the sign, signum is -1, 0 or 1, increment adds exactly one keeping the scale, and scale and sign queries report the value as it is; there is no negative zero. "
     "The in-place and the copying forms agree.",
     ["inputs"], "all values, zeros of any scale, short and long headers",
     "Signs live in different header bits for short and long forms; increment carries through any number of nines.",
     [("sign changes on storage", "src/num.rs: negate, negate_mut, abs, abs_mut"), ("signum, inc", "src/var.rs: signum, inc"), ("queries", "src/num.rs: scale, is_negative, is_positive")],
     "differential against the model", GEN + "Samples values of every header form.")

prop("C26", "Every operator form gives the checked result, or the documented panic",
     "Each operator, for every combination of owned value, borrowed value and reference and in its assigning form, gives what the checked method gives. "
     "Where the checked method reports failure the operator panics, with the message for overflow or for division by zero that applies, and leaves the operands intact.",
     ["inputs"], "all operators, all operand forms, all values, failing ones included; an operand used on both sides",
     "Eighty-odd trait implementations are written out by hand; tests reach each with few values and no failing ones beyond two.",
     [("operator impls", "src/ops.rs: Add, Sub, Mul, Div, Rem, Neg and assigning forms")],
     "differential between operator forms and checked methods", GEN + "Every form on every case.")

prop("C27", "Results are given up to the very limit of the format, and refused beyond",
     "Values with 131072 digits before and 16383 after the decimal point are held and computed with exactly. "
     "A result is given whenever it fits those limits and reported as overflow as soon as it does not; nothing wraps around or is cut off silently.",
     ["inputs"], "operands and results within a few digits of the limits of weight and scale",
     "Tests have no operands of that size, apart from a few overflowing literals.",
     [("range checks", "src/var.rs: make_result, make_result_no_overflow"), ("field widths", "src/binary.rs: weight, dscale")],
     "differential against exact arithmetic at the limits", GEN + "Constructed operands at the limits for every exact operation.")

prop("C28", "Any history of in-place changes, copies and moves behaves as the values do",
     "A value carried through any sequence of in-place changes, assigning operators, copies, conversions and moves has, after each step, exactly the value and scale the same steps give on plain decimals. "
     "Copies are independent: changing one never changes another.",
     ["histories"], "all sequences of operations on a set of values, including values that keep spare room at the front of their buffer",
     "Buffers are reused in place with an offset and a digit count that depend on earlier steps; tests perform single steps on fresh values.",
     [("in-place changes", "src/num.rs: round_mut, trunc_mut, negate_mut, abs_mut, apply_typmod"), ("buffer with offset", "src/data.rs: NumericData"), ("moving buffers", "src/num.rs: into_var, as_var_owned")],
     "model-based stateful testing", GEN + "Histories of up to some hundred steps over several values.",
     state=[("offset", "where in the buffer the value starts", "src/data.rs: NumericData"), ("spare digit", "room for a carry in front of the digits", "src/data.rs: reserve_rounding_digit")])

prop("C29", "An operation that fails leaves its operands untouched and fails as documented",
     "When an operation cannot give a result it returns none or an error where its interface has them, and otherwise panics with the documented message; it never panics otherwise. "
     "Operands and in-place targets then hold exactly what they held before, and remain usable.",
     ["inputs", "fault_sequences"], "all operations, with operands that overflow, divide by zero, or are out of domain, huge ones included",
     "Tests check that a few calls panic, not what is left behind, and cannot range over all calls that must not.",
     [("panics", "src/ops.rs, src/var.rs: expect and panic messages"), ("in-place targets", "src/num.rs: *_mut"), ("overflow results", "src/var.rs: make_result")],
     "fault-directed generation with a model of which calls may fail", GEN + "Every fallible operation; panics are caught and their messages compared.")

prop("C30", "Safe use never breaks memory safety, leaks or reads uninitialised memory",
     "No sequence of safe calls reads or writes outside what it allocated, frees memory twice or with another layout, or leaks memory. "
     "Results never depend on what fresh or freed memory happens to contain.",
     ["inputs", "histories"], "all operations and histories, over all buffer sizes and header forms; hostile bytes and text",
     "Out-of-bounds access and uninitialised reads are silent in a test that checks only results.",
     [("raw buffers", "src/data.rs: buf_alloc, buf_free, digits, offset_sub"), ("unchecked indexing", "src/var.rs: get_unchecked uses"), ("storage views", "src/binary.rs: as_slice, as_ref"), ("ownership across forms", "src/num.rs: from_raw_parts, into_var, drop")],
     "guarding, poisoning allocator and AddressSanitizer under generated calls", GEN + "Detects what touches red zones, mismatched layouts, leaks, and differences between poison patterns; ASan build with the compiler's own checks.")

prop("C31", "Values shared between threads behave as in one thread",
     "Values are freely sent and shared between threads: operations that run at the same time on the same shared values give exactly the results they give one after another, and leave the values as they were.",
     ["schedules", "inputs"], "operations on shared values in several threads at once",
     "Tests are single threaded.",
     [("no interior mutability", "src/num.rs: Numeric, NumericBuf"), ("constants and caches", "src/var.rs: statics"), ("thread-safety of the buffer", "src/num.rs, src/data.rs: Send and Sync")],
     "generated concurrent calls, differential against sequential execution", GEN + "Schedules are the operating system's with drawn delays, and first calls of new processes; not enumerated: finds shared mutable state with good odds only.")

prop("C32", "Every build gives the same results",
     "Whether built with or without optimisation checks, and with either byte order of the length word, the same calls on the same inputs give the same values, texts, errors and panics, and the same stored bytes apart from that length word.",
     ["configurations", "inputs"], "all operations over generated inputs, in three builds",
     "The tests run in one build.",
     [("length word", "src/binary.rs: encode_len, decode_len"), ("arithmetic that must not rely on overflow", "src/var.rs: mul_common, div_common, div_fast_common"), ("debug assertions", "src/var.rs, src/data.rs")],
     "differential between builds on recorded outputs", GEN + "Compares builds with each other, case by case.")


def main():
    with open(os.path.join(TOP, "properties.jsonl"), "w") as f:
        for p, _ in P:
            f.write(json.dumps(p) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3 run.py --setup",
        "checks": [c for _, c in P],
        "not_applicable": [],
        "notes": "Every check builds the harness crate in harness/ against /repo's working tree and runs one property of it; see DESIGN.md.",
    }
    with open(os.path.join(TOP, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
