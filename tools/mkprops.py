#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})
BV = "hwtypes/bit_vector.py"; ABC = "hwtypes/bit_vector_abc.py"; UTIL = "hwtypes/bit_vector_util.py"
SMT = "hwtypes/smt_bit_vector.py"; Z3 = "hwtypes/z3_bit_vector.py"; INT = "hwtypes/smt_int.py"
FP = "hwtypes/fp_vector.py"; FPA = "hwtypes/fp_vector_abc.py"; SFP = "hwtypes/smt_fp_vector.py"
ADT = "hwtypes/adt.py"; META = "hwtypes/adt_meta.py"; AU = "hwtypes/adt_util.py"; MOD = "hwtypes/modifiers.py"
UT = "hwtypes/util.py"; SU = "hwtypes/smt_utils.py"

prop("C01", "Bit vector arithmetic is exact modulo 2^width",
 "For concrete vectors of every width, +, -, *, negation, bvadd/bvsub/bvmul/bvneg and unsigned // and % give exactly the integer result reduced modulo 2^width, in a vector of the same width and type; unsigned division by zero gives all ones and remainder by zero gives the dividend. Signed // and % (and bvsdiv/bvsrem) of a non-zero divisor give the floored quotient and remainder of the signed values modulo 2^width. adc(b, carry) gives the low width bits of the sum and its carry out, so that a chain of adc over any splitting of two long operands equals their addition.",
 ["inputs"], "every width, every pair of operand values, every carry, every split of a long addition",
 "The tests draw a few hundred random pairs at widths below 33; corner values, wide vectors and chains are not reached.",
 [BV], [("bvadd/bvsub/bvmul/bvneg/bvudiv/bvurem/bvsdiv/bvsrem/adc", BV)], observe=["operators and bv* methods of BitVector, UIntVector, SIntVector"])
prop("C02", "Bitwise logic, shifts and rotates act on the right bits",
 "For concrete vectors of every width, ~ & | ^ and bvnot/bvand/bvor/bvxor/bvnand/bvnor/bvxnor act independently on each bit position. Shifts move every bit by the unsigned value of the amount, filling with zeros (or with the sign bit for the arithmetic right shift) also when the amount is at or beyond the width, and rotates take the amount modulo the width and lose no bit. Results have the width and type of the left operand.",
 ["inputs"], "every width, every value, every shift or rotate amount representable in the width (including at and beyond the width)",
 "Random amounts almost never hit width-1, width, width+1 or amounts with high bits set on wide vectors, and rotates are only compared at random small values.",
 [BV, ABC], [("bvshl/bvlshr/bvashr/bvrol/bvror/bvand/...", BV), ("bvnand/bvnor/bvxnor defaults", ABC)], observe=["operators and bv* methods"])
prop("C03", "Comparisons and signedness-directed operators follow the operand type",
 "bvult/ule/ugt/uge compare the unsigned values and bvslt/sle/sgt/sge the two's complement values, bveq/bvne/bvcomp decide bitwise equality, and each order is total and consistent with the others. The operators < <= > >= >> // % and the methods ext and int() use the unsigned meaning on BitVector and UIntVector and the signed meaning on SIntVector (for mixed operands: signed if the left operand is signed, or if the right operand's type is a signed strict subtype of the left one's). overflow(a, b, a+b) is true exactly when the signed sum does not fit.",
 ["inputs"], "every width, every pair of values, every pair of vector types",
 "Tests compare random values of one type at small widths; boundary pairs (min/max signed, equal values, width 1) and mixed types are not covered.",
 [BV, ABC], [("SIntVector operator overrides", BV), ("comparison defaults bvule/bvsle/...", ABC), ("overflow", BV)], observe=["comparison operators", "bv comparison methods", "ext", "int", "overflow"])
prop("C04", "Indexing, slicing, concatenation and extension address the right bits",
 "Bit 0 is the least significant: v[i] (also with negative i), every slice v[i:j:k], concat (receiver low, argument high), repeat, zext and sext return exactly the addressed bits in a vector whose width is the number of addressed bits and whose type family is the receiver's. Out of range indices raise IndexError, invalid extension or repeat counts raise ValueError, and concatenating or slicing never reads a bit from elsewhere. v[i] = b changes exactly bit i.",
 ["inputs"], "every width, value, index (positive, negative, out of range), slice, extension amount and repeat count",
 "Tests sample a handful of indexes and slices of small vectors.",
 [BV], [("__getitem__/__setitem__/concat/repeat/sext/zext", BV)], observe=["indexing, slicing, concat, repeat, zext, sext, ext, item assignment"])
prop("C05", "Construction and conversion of bit vectors are lossless modulo 2^width",
 "A vector built from an int, bool, Bit, sequence of bits, object with __int__ or another vector holds that value modulo 2^width, and as_uint, as_sint, int, bool, bits, as_bool_list, binary_string, as_binary_string, str, repr, hash and rebuilding from any of them all describe that same value. Equal vectors of one type have equal hashes, make_constant(value, size) builds the value in the receiver's unsized type, and implicitly sized construction picks the smallest width (at least 1) that holds the value. A construction that drops bits of a wider vector, a longer sequence or an object with __int__ warns; one from an int never does. random(width) returns a vector of that type and width, covering the whole range.",
 ["inputs"], "every width, every value (negative, oversized, huge), every source kind and every view",
 "Tests check a few conversions at widths up to 16 one view at a time.",
 [BV, ABC], [("BitVector.__init__, seq2int, int2seq", BV), ("AbstractBitVectorMeta.__call__", ABC)], observe=["constructors, views, hash, repr, random"])
prop("C06", "Operands of mixed kinds are coerced or rejected uniformly",
 "A binary bit vector operation accepts on either side an operand convertible to the vector's type (int, bool, Bit, sequence of bits, object with __int__), reduced modulo 2^width, keeps the operand order for reflected operators, and yields the type of the vector operand (the left one if both are vectors). Vectors of different sizes raise InconsistentSizeError (a TypeError) whatever the operation, and an unconvertible operand raises TypeError, except that == and != fall back to Python's identity comparison; no operation silently truncates or extends a vector operand.",
 ["inputs", "configurations"], "every binary operation (operator and method form), every pair of operand kinds, types and sizes, both operand orders",
 "Tests check a few bad operands per operator with one direction and one size pair.",
 [BV, SMT, ABC], [("_coerce, bv_cast, dispatch_oper, dispatch_roper", BV), ("same in the SMT backend", SMT)], observe=["results and exceptions of binary operations on concrete and constant symbolic vectors"])
prop("C07", "Bit vectors are isolated values over any history of operations",
 "Over any history of operations, conversions, slicing, concatenation, ite and item assignment on concrete or symbolic bit vectors, v[i] = b is the only operation that changes a vector and it changes only that vector: no operand, result or earlier result is ever affected by what later happens to another vector. In particular no operation returns an object that shares mutable state with an operand.",
 ["histories"], "every sequence of operations over a pool of vectors, including special cases such as remainder by zero, shift by zero, full slices, zero extensions and same-type conversion",
 "Tests never mutate a vector after having used it as an operand or obtained it as a result, and aliasing only shows over at least three steps.",
 [BV, SMT], [("__setitem__ mutates in place; all other operations must build new objects", BV), ("symbolic __setitem__", SMT)],
 state=[("value", "the bits currently held by a vector object", BV)], observe=["all live vectors after every step"])
prop("C08", "Bit is the two element Boolean algebra, with disciplined coercion",
 "~ & | ^ == != on concrete and constant symbolic bits compute the Boolean functions, on either side with bool and the integers 0 and 1, and the result is always a bit of the same family. Any other integer raises ValueError and objects without a truth value conversion raise TypeError; int, bool, repr and hash of a concrete bit describe its value, equal bits hash equally, and a symbolic bit refuses conversion to bool.",
 ["inputs"], "every operator, operand pair, operand kind and side, for the concrete and the symbolic bit",
 "Tests check the operators on random concrete bits; reflected operators, coercions and the symbolic bit are hardly covered.",
 [BV, SMT, Z3], [("Bit, bit_cast", BV), ("SMTBit", SMT)], observe=["operators and conversions of Bit and SMTBit"])
prop("C09", "ite selects the right branch with a uniform result type",
 "Bit.ite (and BitVector.ite on v != 0) returns the value of the true branch when the bit is one and of the false branch otherwise, for branches that are bits, vectors, equally shaped nested tuples of them, or objects implementing the bit vector protocol. With branches of different types the result is polymorphic: it is an instance of a common supertype, equals the selected value, and its operators behave like those of the selected branch's type. Branches whose kinds, sizes or shapes cannot be reconciled raise TypeError, and no branch is mutated.",
 ["inputs", "programs"], "every select value, branch type pair, width, nested tuple shape and value, concrete and symbolic",
 "Tests check one or two shapes and types with a few random values.",
 [UTIL, BV, SMT], [("build_ite, determine_return_type, push_ite, coerce_branch, PolyVector/PolyBit", UTIL), ("BitVectorProtocol", UTIL)], observe=["ite of Bit, BitVector, SMTBit, SMTBitVector"])
prop("C10", "Sized vector types are unique and form the expected subtype lattice",
 "Indexing an unsized bit vector type (concrete, SMT or z3) or floating point type twice with the same index gives the same type object as long as it is alive and an equivalent one afterwards, whatever was created, dropped or collected before; different bases or indexes give different types. The sized types mirror the unsized lattice (T[n] is a subtype of T and of S[m] exactly when T is a subtype of S and n = m), report their size (or exponent, mantissa, mode, compliance), map back to their unsized type, name and module, know their family's Bit, BitVector, Unsigned and Signed members, and invalid indexes, re-indexing a sized type or inheriting conflicting sizes raise the documented TypeError/ValueError/IndexError independently of the history.",
 ["histories", "configurations"], "every sequence of type creation, dropping, garbage collection, subclassing and lookup over every base and size",
 "Tests build a few types in one fixed order and never drop or collect them; errors that depend on the cache contents cannot show.",
 [ABC, FPA], [("AbstractBitVectorMeta._class_cache, __getitem__, __new__", ABC), ("AbstractFPVectorMeta", FPA)],
 state=[("class cache", "weak map (unsized type, index) -> sized type", ABC)], observe=["type identity, issubclass, size, unsized_t, names, exceptions"])
prop("C11", "SMT bit vectors agree with concrete bit vectors",
 "For every operation offered by both the concrete and the SMT (pysmt) families, building the expression over symbolic variables and then substituting constants, or applying it to constants directly, gives the value and width that the concrete operation gives on the same values, with the same SMT type family. This holds for single operations and for arbitrary compositions, including indexing, slicing, concatenation, extension, repeat, rotate, adc, ite and item assignment.",
 ["inputs", "programs"], "every operation, width and operand values, and every composed expression over symbolic and constant leaves",
 "The SMT tests compare formula objects built by the same library calls, or sample a few values of a few operations.",
 [SMT, BV], [("SMTBitVector/SMTSIntVector methods mapped to pysmt", SMT)], observe=["value of simplified expressions after substitution"])
prop("C12", "z3 bit vectors agree with concrete bit vectors",
 "For every operation offered by both the concrete and the z3 families, applying it to symbolic variables and substituting constants, or applying it to constants directly, gives the value, width and type family that SMT-LIB (and hence the concrete operation) prescribes on the same values. This holds for single operations and compositions, including shifts by amounts at or beyond the width, signed operators of the signed type, indexing, slicing, concatenation, extension, repeat and item assignment.",
 ["inputs", "programs"], "every operation, width and operand values, and every composed expression",
 "The z3 tests compare with the concrete class on random values of a few operators and skip signed types and structural operations.",
 [Z3], [("z3BitVector/z3SIntVector methods mapped to z3", Z3)], observe=["value of simplified z3 expressions"])
prop("C13", "Symbolic names are unique among live values and fresh variables are distinct",
 "Over any history of creating, naming, prefixing, dropping and collecting symbolic bits, vectors, integers and floats, two live symbolic values never denote the same variable, unless one was explicitly built from the other: automatically named and prefixed values always get names not in use, and asking for a name in use by a live value raises ValueError while the name of a dead value becomes available again; a bit, vector or integer asked for by a name that looks automatically generated (V_ and digits) gets it with a warning. Only symbolic values can be named (TypeError otherwise), name and prefix together raise ValueError, and a non-string name raises TypeError, none of which reserves a name.",
 ["histories"], "every sequence of creations (automatic, named, prefixed; bit, vector, int, float; failing ones), drops and collections",
 "Tests create a handful of variables in one process-wide order and never collide explicit names with the automatic counters.",
 [SMT, INT, SFP, Z3], [("_name_table, _var_counters, _gen_name", SMT), ("name handling", INT), ("name handling", SFP), ("name handling", Z3)],
 state=[("name table", "weak map name -> live symbolic value", SMT)], observe=["underlying variable of each live value, exceptions"])
prop("C14", "Substitution is simultaneous and exact",
 "substitute((from, to)...) on a symbolic bit or vector replaces every occurrence of each from by its to simultaneously, leaves everything else alone, keeps the size, and does not change the receiver or the arguments. Evaluating the result under any assignment equals evaluating the original under the assignment in which each from has the value of its to.",
 ["inputs", "programs"], "every expression, every list of substitutions (including swaps, chains, variables that do not occur and expressions as targets) and every assignment",
 "One test substitutes one variable in one expression.",
 [SMT], [("SMTBit.substitute / SMTBitVector.substitute", SMT)], observe=["value of substituted expressions under assignments"])
prop("C15", "Symbolic integers compute exact integer arithmetic",
 "SMTInt +, -, *, negation, comparisons and // compute the unbounded integer result (// is SMT-LIB division for a non-zero divisor), on either side with Python integers, and evaluate to the same value when variables are substituted first or last. Conversion from a bit vector gives its unsigned value, and as_uint/as_sint of a symbolic vector are its unsigned/two's complement value for every width.",
 ["inputs", "programs"], "every operation, operand pair and side, constants and substituted variables, every width for conversions",
 "The tests check the shape of a few formulas.",
 [INT, SMT], [("SMTInt operators, int_cast", INT), ("SMTBitVector.as_uint/as_sint", SMT)], observe=["constant value of simplified integer expressions"])
prop("C16", "And/Or/Implies formula trees mean what they print",
 "A formula tree of And, Or and Implies over symbolic bits converts to a bit whose value under every assignment is the Boolean value of the tree (empty And is true, empty Or is false). Its serialisation lists exactly the tree's operators and leaves in order with one indentation level per depth, building a tree from anything else raises ValueError, and a tree is not affected by later changes to the list it was built from.",
 ["programs", "inputs"], "every tree shape, arity (including empty and single), leaf and assignment",
 "Two tests check two formulas.",
 [SU], [("FormulaConstructor, And, Or, Implies", SU)], observe=["to_hwtypes value, serialize output"])
prop("C17", "Floating point operations are correctly rounded in the type's format and mode",
 "For every exponent size, mantissa size, rounding mode and compliance flag, fp_add, fp_sub, fp_mul, fp_div, fp_fma, fp_sqrt, fp_rem, fp_round_to_integral, construction from int, float, decimal or fraction strings and other formats, and to_ubv/to_sbv return the exact mathematical result rounded once to the format in that mode, with the IEEE 754 results for signed zeros, infinities, NaN, overflow, underflow and subnormals. Non-compliant types have no subnormals and no NaN. Operators agree with the named methods and no operation affects the format or mode used by another type.",
 ["inputs", "configurations"], "every format, mode and flag, every operand combination including special values, ties and range boundaries",
 "Tests compare random operands of single precision against the host's or gmpy2's arithmetic; ties, subnormals, overflow thresholds, other modes and tiny formats are not covered.",
 [FP, FPA], [("_ctx_ context per bound type, set_context", FP), ("arithmetic methods", FP)], observe=["bit pattern of results"])
prop("C18", "Floating point encoding, classification and comparison follow the format",
 "reinterpret_from_bv and reinterpret_as_bv are inverse on every bit pattern of every compliant format (up to the NaN payload), decode to the IEEE 754 value of the pattern, and on non-compliant formats flush subnormals to zero and NaN to infinity, with a warning exactly then. Exactly one of zero, subnormal, normal, infinite and NaN holds and sign predicates, abs, neg, min, max and the six comparisons follow IEEE 754 (NaN unordered, zeros equal), operators agreeing with methods. Mixing formats raises TypeError and numbers are coerced to the left operand's format. random() gives normal numbers over the whole range of the format (infinities only if allowed).",
 ["inputs", "configurations"], "every bit pattern (pairs for binary operations) of every format and flag",
 "Tests sample random patterns of one or two large formats.",
 [FP, FPA], [("reinterpret_as_bv/reinterpret_from_bv", FP), ("fp_is_*, comparisons, fp_cast", FP)], observe=["bit patterns, predicates"])
prop("C19", "Symbolic floating point operations are consistent uninterpreted functions",
 "Each floating point operation of a symbolic format is one uninterpreted function of the operands' bit patterns in order: the same operation of the same type on equal operands gives equal results, different operations, formats or conversion sizes give unrelated functions, and operators denote the same function as their methods. Results have the format's (or the requested) size, != is the negation of ==, reinterpreting as and from bit vectors loses nothing, and non-convertible values raise TypeError.",
 ["inputs", "programs"], "every operation, operator, format, conversion size, and operand order",
 "The tests check that each method builds some application term of the right type.",
 [SFP], [("_SIGS, _uf_table, _fp_method/_bit_method", SFP)], observe=["function symbol and arguments of result terms"])
prop("C20", "Tuple and Product values behave as immutable-typed records",
 "A Tuple or Product value holds exactly the fields it was given, positionally or by name, readable by index, name and value_dict; from_values(value_dict) rebuilds an equal value, and a copy is an equal value of its own. Assigning an item or field changes only that field of that object, only to an instance of the field's type (TypeError otherwise, leaving the value unchanged), and equality, inequality and hash always depend on the current field values and the type only. Wrong counts, names or types of constructor arguments raise and build nothing.",
 ["histories", "inputs"], "every field list (nesting, subclassing), every sequence of constructions, reads, valid and invalid assignments, comparisons and hashes",
 "Tests build a few values and assign one field once; no history compares or hashes after assignment.",
 [ADT, META], [("Tuple.__init__/__setitem__/__eq__/__hash__/value_dict/from_values", ADT), ("generated __init__/__new__ and TypedProperty fields", META)],
 state=[("_value_", "current field values", ADT)], observe=["all reads, equality, hash, exceptions"])
prop("C21", "Sum and TaggedUnion values hold exactly one active alternative",
 "At any time exactly one alternative of a Sum or TaggedUnion value matches, the one last successfully assigned, and reading any other one raises TypeError on access to its value. Assignment is accepted exactly for an alternative of the type with a value of that alternative's type and otherwise raises and leaves the value unchanged; equality and hash depend on the current alternative and value (two tags with the same type and value differ), and value_dict/from_values round trip, and a copy is an equal value of its own.",
 ["histories", "inputs"], "every set of alternatives (including tags sharing a type and alternatives related by subtyping), every sequence of valid and invalid assignments and reads",
 "Tests build one value per alternative and rarely reassign it.",
 [ADT, META], [("Sum.__getitem__/__setitem__/Match", ADT), ("TaggedUnion properties and _tag_", META)],
 state=[("_value_, _tag_", "current value and alternative", ADT)], observe=["match, value, value_dict, equality, hash, exceptions"])
prop("C22", "Algebraic data types are unique per definition with the right lattice",
 "Defining or indexing a Tuple, Sum, anonymous product, Product, TaggedUnion or Enum twice with the same base, name and fields (in the same order for ordered kinds, in any order for unordered ones) while it is alive gives the same type, any difference gives a different type, and uncached definitions are always new. Every bound type reports its fields, field_dict, is_bound, is_cached and unbound type, is a subtype of the corresponding anonymous/positional type and of the bound types of its unbound bases, and rejects re-binding, reserved field names and conflicting bases.",
 ["histories", "configurations"], "every sequence of definitions, lookups, drops and collections over every kind, field list and order",
 "Tests define each type once or twice in one order and never after collection.",
 [META, ADT], [("_cache_handler, _class_cache, BoundMeta.__new__, _bases_from_idx, RESERVED_*", META)],
 state=[("class caches", "weak maps definition -> type", META)], observe=["type identity, issubclass, fields, exceptions"])
prop("C23", "Enumeration is complete and Enum members are distinct constants",
 "enumerate() of a type yields every value that can be built from its leaves' default values and its enums' members exactly once: the product over the fields of a Tuple/Product, the union over the alternatives of a Sum/TaggedUnion and the members of an Enum. Enum members are distinct instances of their type exactly when their values differ, keep their name and value, cannot be constructed by value or reached through another member, and every new_instruction() is distinct.",
 ["programs", "inputs"], "every nesting of the type constructors over enums and leaves, every member set",
 "Tests enumerate a few hand-written types.",
 [META, ADT], [("enumerate methods", META), ("EnumMeta, Enum", META)], observe=["list of enumerated values, member attributes"])
prop("C24", "Rebinding replaces exactly the matching types, at every depth",
 "T.rebind(A, B) is the type with T's shape and names in which every field equal to A (or also every subtype of A if asked) is replaced by B and, if recursive, likewise inside nested types, and with everything else the same; with nothing to replace it is T itself for cached types. rebind_bitvector maps every vector type below the first family type to the same size in the second, keeping modifiers if asked, rebind_keep_modifiers and rebind_type likewise rebind under modifiers and to another family, and anything that cannot be rebound comes back unchanged.",
 ["programs", "configurations"], "every nested type, every A, B and flag combination, for all type constructors and the vector families",
 "Tests rebind a few hand-written types one level deep.",
 [META, AU], [("rebind methods", META), ("rebind_bitvector, rebind_keep_modifiers, rebind_type", AU)], observe=["resulting type and its fields"])
prop("C25", "Modifiers build unique, reversible subtypes",
 "Applying a modifier to a type gives the same modified type every time it is applied while that is alive, a subtype of the original and of the modifier applied to the original's bases, and different modifiers or types give different types. is_modified, get_modifier, get_unmodified, get_all_modifiers, unwrap_modifier and wrap_modifier describe and invert exactly the applied modifiers in order, isinstance/issubclass against a modifier hold exactly for types it produced, duplicate modifiers in wrap_modifier raise TypeError, and make_modifier with caching returns one modifier per name while it is alive.",
 ["histories", "programs"], "every sequence of modifier creations, applications, drops and collections over vector, ADT and plain types",
 "Tests apply one or two modifiers to one or two types.",
 [MOD], [("_ModifierMeta.__call__, _sub_class_cache, _modifier_lookup, _mod_cache", MOD)],
 state=[("modifier tables", "weak maps from modified types to modifiers and back", MOD)], observe=["identity, isinstance, issubclass, modifier lists"])
prop("C26", "Stripping and pushing modifiers preserve shape",
 "strip_modifiers removes every modifier at every level of a type and nothing else. push_modifiers moves every modifier from inner nodes to the leaves below it, giving each leaf its own modifiers first and then those of its ancestors from the innermost to the outermost. Names, field names, order and nesting are kept, types without modifiers come back unchanged, and stripping after pushing equals stripping.",
 ["programs"], "every nesting of type constructors with modifiers at any nodes",
 "One test strips and pushes one hand-written type.",
 [MOD], [("strip_modifiers, push_modifiers, unwrap_modifier, wrap_modifier", MOD)], observe=["resulting type structure"])
prop("C27", "Visitors reach every node of a type or value exactly as declared",
 "ADTVisitor visits each node of a type, and ADTInstVisitor each node of a value (only the active alternative of sums), once per occurrence in field order, dispatching each to the handler of the most specific constructor (enum, product, tuple, tagged union, sum) and everything else to the leaf handler. is_adt_type holds exactly for algebraic data types.",
 ["programs"], "every nested type and value, every subset of overridden handlers",
 "Tests visit one hand-written type.",
 [AU, META], [("_ADTVisitor.visit/generic_visit, ADTVisitor, ADTInstVisitor", AU)], observe=["sequence of visited nodes and handlers"])
prop("C28", "Frozen dictionaries and typed properties keep their contracts",
 "A FrozenDict behaves as an immutable mapping whose equality and hash ignore insertion order (as an OrderedFrozenDict's respect it), equals a plain mapping with the same items, never changes after creation even if its source does, and equal ones hash equally. A TypedProperty stands for itself until a class declares it; then, read on the class, it gives its declared type and on an instance the getter's value, accepts only instances of the declared type, and getter, setter and deleter add one accessor while keeping the others, with AttributeError for missing ones.",
 ["inputs", "histories"], "every construction, pair of dictionaries, accessor combination and sequence of reads, writes and deletes",
 "Tests check a couple of examples.",
 [UT], [("FrozenDict, OrderedFrozenDict, TypedProperty", UT)], observe=["mapping reads, equality, hash, property accesses"])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in P))
