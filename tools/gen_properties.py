#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
S="source/"; E="source/extensions/"
def P(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
            "why_tests_cant":why,"anchors":a}
props=[
P("P01","Relations survive a print/read round trip",
  "Writing any well-formed union of relations (context, domain, scattering, access; any mix of rows, columns, dimension counts, coefficients and parts) in the OpenScop textual format and reading the text back, from a string or from a stream, at the same precision yields a relation identical in type, dimension counts, every coefficient and the order of its parts, and consumes exactly the text of that relation. The numbers printed are the same whatever the precision (32, 64 or multiple) that holds them, and supplying names only changes comments, never what is read back.",
  ["inputs","configurations"],"all relation types, shapes (0..n rows/columns), unions, coefficient values over the whole range of the precision, with and without names, string and stream variants",
  "osl_test round-trips the 18 bundled .scop files at one precision with small coefficients; shapes, wide coefficients, MP and the name-printing variants are not exercised.",
  [S+"relation.c",S+"int.c",S+"util.c",S+"names.c"],
  [("textual printer of relations",S+"relation.c: osl_relation_spprint, osl_relation_spprint_polylib"),("textual readers",S+"relation.c: osl_relation_pread, osl_relation_psread, osl_relation_psread_polylib"),("element formatting",S+"int.c: osl_int_sprint, osl_int_sprint_txt, osl_int_sread")]),
P("P02","Whole SCoPs survive a print/read round trip",
  "Printing any well-formed scop (or list of scops) with any number of statements, with or without domain, scattering, accesses, body, parameters and extensions, and reading the text back gives an equal list of scops with every statement, access, name and extension in the same order and no content added or lost. Reading accepts the same content with arbitrary extra blank lines and comments between items.",
  ["inputs","configurations"],"all scop lists within the structural bounds (scops, statements, parts, accesses, extensions, parameters)",
  "The bundled files cover a handful of combinations and compare with the library's own equality only.",
  [S+"scop.c",S+"statement.c",S+"relation_list.c",S+"generic.c",S+"body.c",S+"strings.c"],
  [("scop printer",S+"scop.c: osl_scop_print, osl_scop_pread"),("statement printer/reader",S+"statement.c: osl_statement_pprint, osl_statement_pread"),("access lists",S+"relation_list.c: osl_relation_list_pprint, osl_relation_list_pread"),("extension dispatch",S+"generic.c: osl_generic_print, osl_generic_read")]),
P("P03","Every standard extension survives a print/read round trip",
  "For each standard extension and statement body kind, writing a well-formed value as text and reading that text back, directly or wrapped in its tag inside the extension part of a document, yields a value identical in every printed field and list element, in the same order. Numeric fields keep their full integer range and text fields keep every character of a line (a text field is one non-empty line without '#' that does not start with a blank, a word has no blank at all; the text of the comment and clay kinds is any text that does not start with a newline and does not hold its own end tag).",
  ["inputs"],"all well-formed values of the arrays, body, extended body, strings, scattering names, scattering infos, coordinates, clay, comment, dependence, loop, symbols, pluto_unroll, region, annotation, irregular and null kinds within size bounds; text fields are single-line, non-empty, without comment or tag characters",
  "Bundled files instantiate a few extensions with one value each; several (region, annotation, dependence, irregular, null) are never read by any test.",
  [E+"arrays.c",E+"scatnames.c",E+"scatinfos.c",E+"coordinates.c",E+"clay.c",E+"comment.c",E+"dependence.c",E+"loop.c",E+"symbols.c",E+"pluto_unroll.c",E+"region.c",E+"annotation.c",E+"irregular.c",E+"extbody.c",S+"body.c",S+"strings.c",S+"generic.c"],
  [("printers","*_sprint in "+E+"*.c"),("readers","*_sread in "+E+"*.c"),("tag wrapping",S+"generic.c: osl_generic_sprint, osl_generic_sread_one")]),
P("P04","Clones are complete and independent",
  "Cloning any structure (relation, relation list, vector, strings, body, generic list, statement list, scop list, interface list, every extension) gives a copy that equals the original field by field and shares no mutable storage with it: changing or freeing either one never affects the other. Partial clones (the first n parts, parts restricted to n constraints, one element) contain exactly the requested prefix, and cloning never alters the source.",
  ["inputs","histories"],"all well-formed structures within size bounds, every field symbolic, followed by mutation or release of either copy",
  "Tests clone bundled scops and compare with the library's equality, which does not look at all fields and cannot see sharing.",
  [S+"relation.c",S+"relation_list.c",S+"generic.c",S+"statement.c",S+"scop.c",S+"strings.c",S+"body.c",S+"interface.c",S+"vector.c",E+"irregular.c",E+"region.c",E+"symbols.c",E+"dependence.c",E+"loop.c"],
  [("clone functions","*_clone, *_nclone, *_clone_one, *_clone_nconstraints in source/")]),
P("P05","Equality tells apart exactly the structures that differ",
  "Comparing two structures returns true if and only if they have the same content: it is reflexive, symmetric, true for structures built from the same values and false as soon as one dimension count, coefficient, name, identifier, list element, list length or extension content differs (user pointers, textual formatting kept only as comments, and, for collections documented as unordered, element order excepted). It never crashes on absent (null) members.",
  ["inputs"],"all pairs of well-formed structures of the same kind within size bounds, including null members and lists of different lengths",
  "Tests only compare a structure with its own clone or re-read copy, so an equality that ignores a field or an element is never noticed.",
  [S+"relation.c",S+"relation_list.c",S+"generic.c",S+"statement.c",S+"scop.c",S+"strings.c",S+"body.c",S+"interface.c",S+"vector.c",E+"arrays.c",E+"dependence.c",E+"loop.c",E+"symbols.c",E+"region.c",E+"annotation.c",E+"irregular.c",E+"extbody.c",E+"scatinfos.c",E+"coordinates.c",E+"pluto_unroll.c"],
  [("equality functions","*_equal, *_part_equal, *_equal_one in source/")]),
P("P06","Memory is used safely and released exactly once",
  "Any sequence of building, reading, editing, cloning, comparing, printing, dumping and freeing well-formed structures through the public interface reads and writes only live, initialised memory inside its bounds, and once the caller has freed what it owns nothing stays allocated. This includes long names, long bodies, many columns and large coefficients.",
  ["inputs","histories"],"all sequences of a bounded number of public operations over well-formed structures within size bounds, including long text",
  "The suite is not run under a memory checker and its inputs never approach internal buffer limits.",
  [S+"relation.c",S+"util.c",S+"strings.c",S+"generic.c",S+"scop.c",S+"statement.c",S+"names.c",S+"relation_list.c",S+"int.c",E],
  [("string accumulation",S+"util.c: osl_util_safe_strcat"),("row/expression buffers",S+"relation.c: osl_relation_spprint_polylib, osl_relation_expression"),("free functions","*_free in source/")]),
P("P07","Integer arithmetic is exact or stops with an overflow error",
  "Addition, subtraction, multiplication (and their small-integer and increment/decrement forms), negation and absolute value return the mathematically exact result for every pair of operands, at every precision and also when the result overwrites an operand. When the exact result does not fit the precision the library stops with an error; it never returns a wrapped value.",
  ["inputs","configurations"],"all operand values over the whole 64-bit range for the fixed precisions and values beyond 64 bits for multiple precision; all aliasing patterns of result and operands",
  "osl_int.c samples a few dozen values around zero and the extremes.",
  [S+"int.c"],[("overflow-checked arithmetic",S+"int.c: osl_int_add, osl_int_sub, osl_int_mul, osl_int_add_si, osl_int_mul_si, osl_int_increment, osl_int_decrement, osl_int_oppose, osl_int_abs")]),
P("P08","Division, remainder, gcd and divisibility follow their mathematical definitions",
  "For every pair of operands of any sign at any precision: exact division multiplies back to the dividend, floor division rounds towards minus infinity with a remainder of the sign of the divisor and smaller in magnitude, the modulo is the non-negative remainder, the gcd is the non-negative greatest common divisor (zero only for two zeros), and divisibility holds exactly when the remainder is zero. All precisions give the same answers and the result may overwrite an operand.",
  ["inputs","configurations"],"all operand pairs within the stated ranges (full 64-bit range where the solver decides it), all precisions, all aliasing patterns",
  "osl_int.c tries a handful of pairs per operation.",
  [S+"int.c"],[("division family",S+"int.c: osl_int_div_exact, osl_int_floor_div_q, osl_int_floor_div_r, osl_int_floor_div_q_r, osl_int_mod, osl_int_gcd, osl_int_divisible")]),
P("P09","Integer comparison, conversion and precision changes preserve values",
  "Every comparison, sign, zero/one/minus-one, minimum/maximum and size predicate agrees with the mathematical order of the values; setting, assigning, copying, swapping, parsing and printing an integer preserve its value. Converting a number, a vector or a relation from one precision to another keeps every value, or stops with an error when the value does not fit, and two objects brought to a common precision both end at the wider one.",
  ["inputs","configurations"],"all values over the whole range of each precision, all ordered pairs of precisions",
  "osl_int.c and osl_relation_set_precision.c sample a few values; mixed-precision pairs are barely touched.",
  [S+"int.c",S+"relation.c",S+"vector.c"],[("predicates",S+"int.c: osl_int_lt..osl_int_zero, osl_int_mmone, osl_int_min/max, osl_int_size_in_base_*"),("conversion",S+"int.c: osl_int_set_precision; "+S+"relation.c: osl_relation_set_precision, osl_relation_set_same_precision")]),
P("P10","Row and column edits change exactly what they say",
  "Inserting, removing, replacing, swapping or concatenating rows (vectors or constraints) and inserting or removing columns of a relation produces exactly the requested matrix: edited cells hold the supplied (or zero) values, every other cell keeps its value at its shifted position, sizes are updated accordingly, and the other parts of the union and the operands are left untouched. Out-of-range positions are refused with an error instead of being acted upon.",
  ["inputs"],"all matrices within size bounds with arbitrary coefficients, all positions including both ends and the append position, all precisions",
  "No existing test calls the matrix editing operations.",
  [S+"relation.c"],[("matrix editing",S+"relation.c: osl_relation_insert_blank_row/column, osl_relation_insert_vector, osl_relation_replace_vector, osl_relation_insert_constraints, osl_relation_replace_constraints, osl_relation_swap_constraints, osl_relation_remove_row/column, osl_relation_insert_columns, osl_relation_concat_constraints, osl_relation_concat_vector")]),
P("P11","Vector operations compute the element-wise result",
  "Adding, subtracting, scaling, offsetting, tagging (equality/inequality marker) and comparing vectors, adding or subtracting a vector to a row, and building a relation from a vector compute exactly the element-wise mathematical result and modify nothing but their declared result. Operands of different size or precision, and overflowing elements, are refused with an error.",
  ["inputs"],"all vectors within length bounds with arbitrary coefficients, all precisions",
  "No existing test uses vectors.",
  [S+"vector.c",S+"relation.c"],[("vector algebra",S+"vector.c: osl_vector_add, osl_vector_sub, osl_vector_add_scalar, osl_vector_mul_scalar, osl_vector_tag_equality, osl_vector_tag_inequality, osl_vector_equal, osl_vector_is_scalar"),("row combination",S+"relation.c: osl_relation_add_vector, osl_relation_sub_vector, osl_relation_from_vector")]),
P("P12","Unions and lists keep exactly their members in order",
  "Union, append, prefix clone, part removal and component counting on relation unions, and push, pop, duplicate, drop, append, concatenate, filter by kind and count on relation lists, yield exactly the expected members, unmodified and in the expected order, and leave the operands that are documented as inputs unchanged. Counts always equal the number of members actually present.",
  ["inputs","histories"],"all unions/lists up to the bounded length with arbitrary types and coefficients, and sequences of list operations",
  "Tests only traverse lists as read from files.",
  [S+"relation.c",S+"relation_list.c",S+"statement.c"],[("union algebra",S+"relation.c: osl_relation_union, osl_relation_add, osl_relation_nclone, osl_relation_remove_part, osl_relation_nb_components"),("list algebra",S+"relation_list.c: osl_relation_list_add, _push, _pop, _dup, _drop, _concat, _append, _filter, _count; "+S+"statement.c: osl_statement_add, osl_statement_number")]),
P("P13","Eliminating unions yields one statement per pair of parts",
  "Eliminating unions from a scop list produces, for each statement and in order, one statement for every combination of one part of its domain and one part of its scattering (domain part first), each carrying the same accesses and extensions, and no statement is lost, duplicated or leaked; absent domains or scatterings stay absent. The original scops, their contexts, parameters and extensions are unaffected.",
  ["inputs"],"all scop lists with bounded numbers of scops, statements, domain parts and scattering parts, arbitrary coefficients",
  "The bundled files contain very few unions, and the test walks only the combinations they contain.",
  [S+"scop.c",S+"statement.c",S+"relation.c"],[("union elimination",S+"scop.c: osl_scop_remove_unions; "+S+"statement.c: osl_statement_remove_unions")]),
P("P14","Scattering normalisation only pads with zero-valued dimensions",
  "Normalising the scattering relations of a scop gives every scattering the same, largest, number of output dimensions; extending a relation to more output dimensions adds, for each new dimension, one equality fixing it to zero, and keeps every existing constraint, coefficient, dimension and the order of parts in place. A relation that already has the requested dimensions is unchanged, and the input of an extension is never modified.",
  ["inputs"],"all relations within bounds with arbitrary coefficients and dimension splits, all target dimension counts, scops with several statements",
  "No test calls normalisation or extension.",
  [S+"relation.c",S+"scop.c"],[("extension",S+"relation.c: osl_relation_extend_output"),("normalisation",S+"scop.c: osl_scop_normalize_scattering")]),
P("P15","Integrity checks accept exactly the consistent structures",
  "The integrity check accepts every relation, relation list, statement and scop whose dimension counts, column counts, equality markers, access form and parameter counts are mutually consistent with the given expectations, and rejects one in which any single count is inconsistent with the others or with what the rest of the scop requires. It never modifies or crashes on what it inspects.",
  ["inputs"],"all relations within bounds with arbitrary dimension counts, kinds and expectations, statements and scops built from them",
  "Tests only run the check on bundled, valid files.",
  [S+"relation.c",S+"relation_list.c",S+"statement.c",S+"scop.c",S+"names.c"],[("integrity",S+"relation.c: osl_relation_integrity_check; "+S+"relation_list.c: osl_relation_list_integrity_check; "+S+"statement.c: osl_statement_integrity_check; "+S+"scop.c: osl_scop_integrity_check")]),
P("P16","Damaged input is refused cleanly",
  "Reading a document (scop, relation, body, strings or any extension) that is truncated anywhere or has an arbitrary byte changed either succeeds with a well-formed value or stops with an error; it never touches memory out of bounds, uses uninitialised data or loops forever. A well-formed prefix followed by the end of input is never silently completed with stale or made-up coefficients.",
  ["inputs"],"every truncation point and every value of any one byte of representative documents, for every reader",
  "No test feeds malformed input.",
  [S+"util.c",S+"relation.c",S+"generic.c",S+"scop.c",S+"statement.c",S+"strings.c",S+"body.c",E],[("token readers",S+"util.c: osl_util_read_int, osl_util_read_string, osl_util_read_line, osl_util_read_tag, osl_util_tag_content, osl_util_read_uptoflag"),("structure readers","*_sread, *_pread, *_psread in source/")]),
P("P17","Text scanning respects tokens, comments, blanks and tags",
  "Reading an integer, word, line, tag or tagged block skips exactly the blanks and comments in front of it, returns exactly the token's characters, and leaves the position immediately after it (in a stream, which is read line by line, right after its line), identically for strings and streams. Content of a tag is everything strictly between its start and end tag, and appending to a growing string keeps all previous characters whatever the lengths involved.",
  ["inputs"],"all short texts over a symbolic alphabet (blanks, newline, comment sign, tag characters, letters, digits) and lengths around internal buffer sizes",
  "Tests only see the layouts of the bundled files.",
  [S+"util.c"],[("scanning",S+"util.c: osl_util_skip_blank_and_comments, osl_util_sskip_blank_and_comments, osl_util_read_int, osl_util_read_string, osl_util_read_line, osl_util_read_tag, osl_util_read_uptoflag, osl_util_read_uptotag, osl_util_tag_content"),("string growth",S+"util.c: osl_util_safe_strcat, osl_util_strdup")]),
P("P18","String collections keep their strings",
  "Adding, finding, counting, joining, generating, wrapping, printing and reading string collections preserve every string and their order: a string just added is found at the last position, searching an absent string reports the size, joining concatenates both collections without altering them, and generated names are the prefix followed by 1..n. Reading accepts any amount of blanks between strings.",
  ["inputs","histories"],"all collections within bounds with symbolic characters and lengths, including empty collections",
  "Only indirectly exercised through bundled files with single blanks.",
  [S+"strings.c",S+"names.c"],[("collection operations",S+"strings.c: osl_strings_add, osl_strings_find, osl_strings_size, osl_strings_sread, osl_strings_sprint, osl_strings_generate, osl_strings_encapsulate, osl_strings_add_strings; "+S+"names.c: osl_names_generate")]),
P("P19","Extensions and interfaces are found, unique and isolated by their URI",
  "In a generic list at most one element per kind is kept when adding, lookup returns exactly the data of the requested kind or nothing, removal deletes only that kind, and equality and counting do not depend on the order of elements. A registry lookup returns the interface registered under exactly that name; unknown extensions in a document are skipped without disturbing the known ones.",
  ["inputs","histories"],"all lists of bounded length over the standard kinds, sequences of add/remove/lookup, documents mixing known and unknown tags",
  "Tests read each extension alone in a file.",
  [S+"generic.c",S+"interface.c"],[("generic lists",S+"generic.c: osl_generic_add, osl_generic_remove, osl_generic_lookup, osl_generic_has_URI, osl_generic_count, osl_generic_equal, osl_generic_sread"),("registry",S+"interface.c: osl_interface_add, osl_interface_lookup, osl_interface_nclone, osl_interface_get_default_registry")]),
P("P20","Substituting identifiers rewrites exactly the whole identifiers",
  "Identifier substitution in an expression replaces every occurrence of each listed name that stands as a whole identifier with a marker holding its rank in the list (@rank@, between parentheses unless the place is safe), leaves every other character (including identifiers that merely contain a name) untouched, and never depends on the length of the expression.",
  ["inputs"],"all short expressions over letters, digits, underscore and operators, with one or two names",
  "No test calls it.",
  [S+"util.c"],[("substitution",S+"util.c: osl_util_identifier_substitution")]),
P("P21","Extension accessors and builders do what their result says",
  "Building extensions incrementally (adding arrays, loops, symbols, dependences, access coordinates, unroll directives, irregular controls, exits and predicates) appends exactly the given item after the existing ones, lookups by identifier or name return the first matching index or the element count, and counts equal the number of items. The body of a statement is its body extension or else the one inside its extended body. Conversions to names place each name at its own identifier.",
  ["inputs","histories"],"all extension values within bounds and every argument of the builder",
  "Only pluto_unroll has a unit test; the others are only read from files.",
  [E+"arrays.c",E+"loop.c",E+"symbols.c",E+"dependence.c",E+"extbody.c",E+"irregular.c",E+"pluto_unroll.c"],[("builders and lookups","osl_arrays_add, osl_arrays_get_index_from_id/name, osl_arrays_to_strings, osl_loop_add, osl_loop_count, osl_symbols_*, osl_dependence_add, osl_nb_dependences, osl_extbody_add, osl_irregular_add_*, osl_pluto_unroll_fill")]),
P("P22","Attributes and array identifiers are derived from all parts",
  "The numbers of parameters, iterators, scattering and local dimensions and the highest array identifier reported for a relation, list, statement or scop are the maximum over every part and member it contains; the array identifier of an access relation is the absolute constant that fixes its first output dimension, and relations that are not accesses report it as undefined. Setting attributes or a type on a union affects every part and nothing but those fields.",
  ["inputs"],"all relations, unions, access lists, statements and scops within bounds",
  "No test looks at the derived attributes.",
  [S+"relation.c",S+"relation_list.c",S+"statement.c",S+"scop.c"],[("attribute derivation",S+"relation.c: osl_relation_get_attributes, osl_relation_get_array_id, osl_relation_set_attributes, osl_relation_set_type; "+S+"relation_list.c: osl_relation_list_get_attributes, osl_relation_list_set_type; "+S+"statement.c: osl_statement_get_attributes; "+S+"scop.c: osl_scop_get_attributes")]),
P("P23","Observers leave what they observe unchanged",
  "Printing, dumping, comparing, counting, checking, querying and exporting (including the SCoPLib export) never modify the structure passed to them: every field and list link is the same before and after, repeating the operation gives the same text, text produced into a string equals text produced into a stream, and what is observed (texts, answers, copies, comparisons) depends on the contents alone, not on what was observed before, also when the structure was changed in place in between.",
  ["inputs"],"all well-formed structures within bounds, for every printing, dumping and querying operation",
  "Tests never compare a structure before and after printing.",
  [S+"relation.c",S+"relation_list.c",S+"statement.c",S+"scop.c",S+"generic.c",S+"body.c",S+"strings.c",S+"vector.c",E],[("printers and dumpers","*_print, *_pprint, *_sprint, *_idump, *_print_scoplib in source/")]),
P("P24","Expressions, comments and headings written for rows say what the rows say",
  "The affine expression produced for a row of a relation, and the constraint written as a comment after each printed row, denote exactly that row: read back with the names of the columns, the expression has every coefficient and the constant of the row with its sign, and the commented constraint is an equality or an inequality as the row is, whose two sides differ by the row (an array name standing for the identifier of that array). The heading above the rows names every column in order and in its groups. Names given by the caller, parameter names of the scop, iterator names of the statement body and array names of the arrays extension are used where there are enough of them, generated names otherwise.",
  ["inputs","configurations"],"all relation types, shapes, unions, coefficients over the whole range of the precision, and any set of names, on their own and within statements and scops",
  "Tests compare what is read back, and comments are skipped by the reader: a wrong sign, a missing term or a name of another column is never noticed.",
  [S+"relation.c",S+"names.c",S+"statement.c",S+"scop.c",S+"relation_list.c"],
  [("expressions",S+"relation.c: osl_relation_expression, osl_relation_subexpression, osl_relation_expression_element"),("comments and headings",S+"relation.c: osl_relation_sprint_comment, osl_relation_column_string, osl_relation_strings, osl_relation_is_simple_output"),("choice of the names",S+"statement.c: osl_statement_pprint; "+S+"scop.c: osl_scop_print")]),
P("P25","The SCoPLib export states the same scop",
  "Exporting a scop that SCoPLib can express writes, in order, the context, the parameter names, and for each statement its domain, its scattering, its read accesses, its write accesses and its body: every matrix announces exactly the rows and columns it then shows, holds the same coefficients without the input dimensions of domains and without the identity output part of scatterings and accesses, and accesses show the identifier of their array on their first row and zero on the others. A statement without any iterator gets one, fixed to zero, in all its matrices. A list of scops, a scop with a statement that lacks its domain or scattering, with local dimensions in any of them, or with a scattering whose output part is not minus the identity, is refused.",
  ["inputs","configurations"],"all scops SCoPLib can express within the bounds, any coefficients, any mix of accesses, with or without names, bodies and arrays",
  "No test exports a scop.",
  [S+"relation.c",S+"relation_list.c",S+"statement.c",S+"scop.c",S+"body.c",S+"generic.c"],
  [("matrices",S+"relation.c: osl_relation_spprint_polylib_scoplib"),("accesses",S+"relation_list.c: osl_relation_list_pprint_access_array_scoplib"),("statements and scop",S+"statement.c: osl_statement_pprint_scoplib; "+S+"scop.c: osl_scop_print_scoplib, osl_scop_check_compatible_scoplib")]),
]
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in props: f.write(json.dumps(p)+"\n")
print(len(props))
