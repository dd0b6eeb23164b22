#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and lib/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import props

I, H, C = 'inputs', 'histories', 'configurations'
P = []


def prop(pid, title, statement, over, text, why, files, mech):
    P.append({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})


RT = 'the existing tests read, print and re-read a few dozen stored .scop files once each'
prop('C01', 'Relations survive printing and reading back',
     'Printing any relation union (any number of parts, rows and columns, including none, any coefficients of its precision, with or without '
     'names) and reading the text back, from a file or from a string, in the same precision gives an equal relation. '
     'The printed type, part count, six-integer header and matrix are exactly those of the relation, and the reader returns exactly what the text says.',
     [I, C], 'all relations, name tables, precisions, and both output and input routes',
     RT + '; those are single-part relations of at most a handful of rows in one precision',
     ['source/relation.c', 'source/int.c', 'source/util.c'],
     [('printing', 'osl_relation_spprint, osl_relation_spprint_polylib'), ('reading', 'osl_relation_pread, osl_relation_psread_polylib')])
prop('C02', 'Whole SCoPs survive printing and reading back',
     'Printing any SCoP (or list of SCoPs) and reading the text back with the same registry gives an equal one: language, context, parameters, every '
     'statement with its domain, scattering, accesses and extensions, and the global extensions, in the same order. '
     'Extensions whose interface is not registered are skipped without disturbing the rest.',
     [I, C], 'all SCoPs built from well-formed relations, any number of statements, accesses, extensions and SCoPs, all precisions',
     RT + ', which never combine several SCoPs, unions, absent parts and most extensions',
     ['source/scop.c', 'source/statement.c', 'source/relation_list.c', 'source/generic.c'],
     [('printing', 'osl_scop_print, osl_statement_pprint'), ('reading', 'osl_scop_pread, osl_statement_pread')])
prop('C03', 'Every extension survives printing and reading back',
     'For each kind of extension, the text printed for any valid content is read back as equal content, and reading consumes exactly the '
     'text of the extension. Contents may have any length and any number of items.',
     [I], 'all contents of the printable extensions (names, arrays, bodies, coordinates, dependences, loops, unrolling, regions, annotations, symbols, comments, scripts...)',
     'stored files exercise each extension with one or two small contents',
     ['source/extensions/*.c', 'source/strings.c', 'source/body.c'],
     [('text form', 'osl_*_sprint and osl_*_sread of each extension')])
prop('C04', 'Reading depends only on the significant tokens',
     'What is read from a relation, statement or SCoP text is determined by its significant tokens: comments, blank lines, indentation and extra blanks never '
     'change the result, and reading from a file or from a string gives the same value. Reading stops right after what it read, so that '
     'consecutive objects can be read one after the other.',
     [I], 'all layouts of all well-formed texts',
     'stored files have the layout the library itself prints',
     ['source/util.c', 'source/relation.c', 'source/strings.c'],
     [('skipping', 'osl_util_skip_blank_and_comments, osl_util_sskip_blank_and_comments')])
prop('C05', 'Malformed texts are refused',
     'A text that is not a well-formed relation, relation list, statement or SCoP (missing or unknown type, wrong headers, missing rows or columns, cells that are not '
     'integers or do not fit the precision, wrong counts, missing parts, truncation at any line) is refused with a diagnostic and an error exit. '
     'It is never read as a different object, and never crashes or hangs the reader.',
     [I], 'all ways to damage a well-formed text, including truncation after every line',
     'no test feeds malformed input',
     ['source/relation.c', 'source/relation_list.c', 'source/statement.c', 'source/scop.c', 'source/util.c'],
     [('checks while reading', 'OSL_error calls of the readers')])
prop('C06', 'Clones are equal and independent',
     'Cloning any object gives an object equal to the original in every field and in the same order, with its own storage: modifying or freeing either of them later never changes the other. '
     'Partial clones hold exactly the requested first parts, rows or nodes.',
     [I, H], 'all objects (relations, lists, statements, SCoPs, generics, interfaces, names, every extension) and all later modifications',
     'tests clone the content of the stored files once and compare with the library\'s own equality',
     ['source/*.c', 'source/extensions/*.c'], [('cloning', 'osl_*_clone, osl_*_nclone, osl_relation_clone_nconstraints')])
prop('C07', 'Equality is structural equality',
     'Two objects compare equal exactly when they have the same content: any single difference in any field, row, part or item makes them different, and absent objects are equal only to absent objects. '
     'Equality is reflexive and symmetric; generic lists are compared regardless of their order and, where documented, contents that are not significant (purely textual extensions) are ignored.',
     [I], 'all pairs of objects, in particular pairs that differ in exactly one place',
     'tests compare objects that are expected to be equal',
     ['source/*.c', 'source/extensions/*.c'], [('comparison', 'osl_*_equal')])
prop('C08', 'Constraint matrix editing does exactly what it says',
     'Inserting, replacing, swapping, concatenating and removing rows and columns of a relation, and adding or subtracting a vector to a row, changes exactly the designated cells: '
     'all other rows, columns, attributes and parts are preserved in order, whatever sequence of edits is applied.',
     [I, H], 'all sequences of edits on matrices of any size and precision, positions including both ends, aliased operands',
     'tests never call most of these functions',
     ['source/relation.c', 'source/vector.c'], [('edition', 'osl_relation_insert_*, replace_*, remove_*, concat_*, swap_constraints')])
prop('C09', 'Vector operations compute row by row what they say',
     'Creating, adding, subtracting, scaling, adding a scalar, tagging and testing vectors gives the exact cell-wise result in every precision, leaving the operands '
     'untouched; operands of different sizes or precisions are refused.',
     [I, C], 'all vectors of any size and precision', 'tests do not exercise vectors directly',
     ['source/vector.c'], [('arithmetic', 'osl_vector_add, sub, mul_scalar, add_scalar, tag_*')])
prop('C10', 'Unions of relations compose without loss',
     'Adding, uniting, removing, counting and cloning parts of relation unions keeps every other part, once and in order; setting type and attributes '
     'affects exactly the designated parts.',
     [I, H], 'all sequences of union operations', 'tests use single-part relations almost everywhere',
     ['source/relation.c'], [('unions', 'osl_relation_add, osl_relation_union, osl_relation_remove_part, osl_relation_nclone')])
prop('C11', 'Relation lists behave as sequences of relations',
     'Adding, pushing, popping, duplicating, dropping, concatenating, filtering, counting and cloning relation lists behave as the same operations on a '
     'sequence of relations: nothing is lost, duplicated or reordered.',
     [I, H], 'all sequences of list operations, including on empty lists and on lists with absent relations', 'tests only read and print lists',
     ['source/relation_list.c'], [('lists', 'osl_relation_list_*')])
prop('C12', 'Invalid arguments are refused',
     'Calls whose arguments are out of range or incompatible (row or column positions outside the matrix, different precisions or column counts, '
     'unknown precisions, too many parts or rows requested, duplicate interfaces) end with a diagnostic and an error exit, and valid calls never do. '
     'No such call returns a wrong result, corrupts memory or crashes.',
     [I, H], 'all valid and invalid arguments, in particular those just inside and just outside the limits', 'tests make valid calls only',
     ['source/relation.c', 'source/vector.c', 'source/int.c', 'source/generic.c', 'source/interface.c'], [('argument checks', 'OSL_error calls')])
prop('C13', 'Integer arithmetic is exact in every precision',
     'Every arithmetic and comparison operation on integers gives the exact mathematical result in each precision, with floor and Euclidean conventions for division '
     'and modulo, also when an operand is the destination. When the result does not fit the precision the operation is refused; it never wraps silently.',
     [I, C], 'all operand values including the limits of each precision and arbitrarily large multiple precision values', 'one test program checks a few dozen small values',
     ['source/int.c'], [('operations', 'osl_int_*'), ('overflow detection', 'osl_int_*_overflow')])
prop('C14', 'Integer text and precision conversions keep the value',
     'Printing and reading an integer, converting it between precisions, and converting relations to another or to a common precision keep the exact value; '
     'values that cannot be represented in the target are refused.',
     [I, C], 'all values and all pairs of precisions', 'conversions are tested on small values',
     ['source/int.c', 'source/relation.c'], [('conversion', 'osl_int_set_precision, osl_relation_set_precision, osl_relation_set_same_precision, osl_int_sread')])
prop('C15', 'Removing unions preserves the statements',
     'Removing the unions of a statement gives one statement per pair of a domain part and a scattering part, each with the accesses and extensions of the original; '
     'removing those of a SCoP does it for every statement, in order, and leaves everything else as it was.',
     [I], 'all SCoPs with any number of statements and union parts', 'no test calls it on a SCoP with unions followed by other statements',
     ['source/statement.c', 'source/scop.c'], [('removal', 'osl_statement_remove_unions, osl_scop_remove_unions')])
prop('C16', 'Scattering normalisation only pads',
     'Normalising a SCoP or extending a relation to more output dimensions inserts the new dimensions after the existing ones, sets each of them to zero by one new equality row, and '
     'keeps every existing coefficient in its column; all scatterings of the SCoP end with the largest original number of dimensions.',
     [I], 'all relations and SCoPs with different numbers of scattering dimensions', 'tests do not compare the result with an independent computation',
     ['source/relation.c', 'source/scop.c'], [('extension', 'osl_relation_extend_output, osl_scop_normalize_scattering')])
prop('C17', 'Integrity checks accept exactly the well-formed objects',
     'The integrity checks of relations, lists, statements and SCoPs accept every object that satisfies the rules of the OpenScop representation '
     '(type, dimensions, column count, tags, array identifiers, agreement between parts, statements and context) and reject every object that breaks one of them.',
     [I], 'all objects, in particular those that break exactly one rule in any part of any component', 'tests check objects that are well-formed',
     ['source/relation.c', 'source/relation_list.c', 'source/statement.c', 'source/scop.c'], [('checks', 'osl_*_integrity_check')])
prop('C18', 'Attributes, array identifiers and counts are right',
     'The numbers of parameters, iterators, scattering and local dimensions, and the array identifiers reported for a relation, list, statement or SCoP are the maxima over all its '
     'components, and every count (parts, elements, statements, SCoPs) is the actual one.',
     [I], 'all objects with any number of components', 'tests check none of these results directly',
     ['source/relation.c', 'source/relation_list.c', 'source/statement.c', 'source/scop.c'], [('attributes', 'osl_*_get_attributes, osl_relation_get_array_id')])
prop('C19', 'Generic lists and interface registries keep their entries',
     'Adding, removing, looking up, counting and cloning generics and interfaces behaves as on a sequence with unique identifiers: an entry is found exactly when it is there, other entries keep their order and content, and '
     'duplicates are refused. Registering an extension in a SCoP makes exactly the matching textual extensions available in decoded form.',
     [I, H], 'all sequences of registry operations', 'tests use the default registry once',
     ['source/generic.c', 'source/interface.c', 'source/scop.c'], [('registries', 'osl_generic_*, osl_interface_*, osl_scop_register_extension')])
prop('C20', 'Nothing leaks and no call touches memory it does not own',
     'Over any history of valid calls, each object is released by freeing its owner: when everything is freed no memory remains allocated, nothing is freed twice, and no call reads or writes outside live objects.',
     [H, I], 'all histories of API calls over every kind of object', 'tests run without leak or memory checking',
     ['source/*.c', 'source/extensions/*.c'], [('ownership', 'osl_*_free, *_add functions taking ownership')])
prop('C21', 'String and array tables answer lookups exactly',
     'Adding to, searching, sizing, generating and concatenating string tables, and converting array tables to names, give exactly the entries that were put in, at the position they have; searching for '
     'something absent says so.',
     [I, H], 'all table contents and sizes', 'tests do not call these functions with more than a few entries',
     ['source/strings.c', 'source/names.c', 'source/extensions/arrays.c'], [('tables', 'osl_strings_*, osl_arrays_*, osl_names_generate')])
prop('C22', 'Identifier substitution replaces exactly the identifiers',
     'Substituting identifiers in an expression replaces every occurrence of each listed identifier as a whole word by its position mark, with parentheses unless the context makes them useless, and leaves every other character as it was.',
     [I], 'all expressions and identifier lists', 'no test exercises it beyond the bodies of the stored files',
     ['source/util.c'], [('substitution', 'osl_util_identifier_substitution')])
prop('C23', 'SCoPLib export drops only what the old format cannot say',
     'Exporting to the SCoPLib format prints, for every statement, the coefficients of the domain, scattering and accesses in the layout of that format, in order, and exactly the options it knows; SCoPs that it cannot express are recognised.',
     [I], 'all SCoPs that the format can express', 'the export is compared with stored files for a few SCoPs',
     ['source/relation.c', 'source/relation_list.c', 'source/statement.c', 'source/scop.c'], [('export', 'osl_scop_print_scoplib, osl_relation_spprint_scoplib')])
prop('C24', 'Printed annotations name the constraint they follow',
     'The names of the columns and the expression printed as a comment with each row are those of that row: every coefficient appears once with the name of its column, '
     'its sign and its value, and the relation (equality, inequality, or definition of an output dimension) is the right one.',
     [I], 'all rows, signs, coefficient values, name tables and relation types', 'comments are dropped when stored files are compared',
     ['source/relation.c', 'source/names.c'], [('comments', 'osl_relation_sprint_comment, osl_relation_subexpression')])
prop('C25', 'Statement and SCoP lists keep their elements',
     'Adding, cloning, counting and reading lists of statements and SCoPs keeps each element once, in order and unchanged, and the body found for a statement is the one attached to it.',
     [I, H], 'all sequences of operations on statement and SCoP lists', 'tests handle one SCoP of a few statements',
     ['source/statement.c', 'source/scop.c'], [('lists', 'osl_statement_add, osl_statement_nclone, osl_scop_add, osl_statement_get_body')])
prop('C26', 'Extension contents grow exactly by what is added',
     'Adding accesses, arrays, loops, dependences, symbols, predicates, annotations and region texts to the corresponding extension appends exactly that item, keeps the others, and counts report the actual number.',
     [I, H], 'all sequences of additions to every extension', 'tests do not build extensions through the API',
     ['source/extensions/*.c'], [('additions', 'osl_*_add*, osl_region_append_*, osl_annotation_append_*')])
prop('C27', 'Elementary readers return exactly the next item',
     'Reading the next integer, word, line, tag, or text up to a marker returns exactly that item, skips only blanks and comments before it and leaves the rest of the input untouched, the same way for files and strings, with inputs of any length.',
     [I], 'all input texts', 'tests reach them only through well-formed files',
     ['source/util.c'], [('readers', 'osl_util_read_int, read_string, read_line, read_tag, read_uptoflag, tag_content')])

NOTE = ('every step of the explored histories is judged by TLC against the explicit TLA+ specification (outcome, result and whole abstract state); exhaustive for the small-constant models that '
        'generate histories, sampled beyond; trusts the projection of harness/values.hpp and TLC')
LATE = 'the specification of this part of the library is not bound to the code yet'


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    ids = [p['id'] for p in P]
    assert set(props.PLAN) <= set(ids), set(props.PLAN) - set(ids)
    man = {'version': 1, 'setup_cmd': 'bash harness/build.sh build/drv',
           'checks': [{'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': 'TLA+ specification checked with TLC; conformance by trace validation of real executions',
                       'level': 'model_checking', 'level_note': NOTE} for i in ids if i in props.PLAN],
           'not_applicable': [{'property': i, 'reason': props.NOT_APPLICABLE.get(i, LATE)} for i in ids if i not in props.PLAN],
           'notes': 'No hooks in /repo: the public API exposes the whole abstract state.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
