"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays well-formed)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=['src/csvw/' + f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

p('C01', 'DSV text written by the writer reads back as the same rows',
  'For every dialect or set of formatting parameters the writer accepts (with a delimiter, quote and escape character that differ, and line terminators of \\n, \\r\\n or \\r) and every sequence of rows of text cells it manages to write, reading the result back with the same dialect or parameters and encoding yields the same rows in the same order. What the dialect tells the reader to drop (comments, skipped or blank rows and columns, trimmed or initial space) and a byte order mark at the very start of the text are excepted. This includes cells containing delimiters, quote characters, escape characters and line breaks, whether the target is a path or an in-memory buffer. Rows given as dicts are written as one header row with the keys of the first dict, provided nothing was written before, followed by one row of values per dict.',
  ['inputs', 'configurations'], 'all rows of text cells x all dialects/formatting parameters and encodings',
  'Tests write a handful of rows with four or five fixed dialects; escaping bugs need particular cell/dialect combinations.',
  ['dsv.py', 'dsv_dialects.py'],
  [('UnicodeWriter.__init__/writerow/writerows', 'src/csvw/dsv.py'), ('UnicodeReader.__init__/__enter__/_next_row', 'src/csvw/dsv.py'), ('Dialect.as_python_formatting_parameters', 'src/csvw/dsv_dialects.py')],
  ['UnicodeWriter.read()', 'file written', 'rows yielded by UnicodeReader'])
p('C02', 'Dialect flags decide exactly which rows, columns and comments a reader yields',
  'With a dialect, a reader yields, in file order, exactly the rows that do not start with a non-empty comment prefix, are not within the first skipRows lines, and (with skipBlankRows) are not blank (no cells or only empty cells), each with its cells trimmed as the dialect says and the first skipColumns cells removed; it makes no difference whether a dialect was made directly or by updating another one. Every dropped comment row or non-empty skipped row is recorded, in order, in the comments with the 0-based number of its last line and its text (the cells joined by the delimiter) stripped of the prefix and of surrounding white space, and nothing else is. The line number reported with a row is the 1-based number of the text line on which the row ends.',
  ['inputs', 'configurations'], 'all row sequences x all dialect flag combinations',
  'The tests use a few files and single flags; combinations of skipRows, comments, blanks and multi-line cells are not sampled.',
  ['dsv.py', 'dsv_dialects.py'], [('UnicodeReader.__next__, _next_row', 'src/csvw/dsv.py'), ('Dialect.trimmer', 'src/csvw/dsv_dialects.py')],
  ['rows yielded', 'reader.comments', 'line numbers of UnicodeReaderWithLineNumber'],
  [('lineno', 'number of text lines consumed, minus one', 'UnicodeReader')])
p('C03', 'Dict and namedtuple readers map every cell to its field',
  'A dict reader yields one mapping per non-empty data row, in order, in which field i maps to cell i, missing trailing cells map to restval, and surplus cells are collected as a list under restkey; the field names are those passed in or else the first row. No data row is lost or yielded twice. A namedtuple reader yields the same values under normalised field names, with None for missing cells, and ignores surplus cells.',
  ['inputs'], 'all header/row length combinations and contents',
  'Tests use two or three small files.', ['dsv.py'],
  [('UnicodeDictReader.fieldnames/__next__/item', 'src/csvw/dsv.py'), ('NamedTupleReader.item', 'src/csvw/dsv.py'), ('iterrows', 'src/csvw/dsv.py')], ['yielded items'])
p('C04', 'In-place file edits are exact and all-or-nothing',
  'After rewriting a file with a visitor the file holds exactly the rows the visitor returned (None drops the row), in order; adding rows keeps all existing rows and appends the new ones; filtering keeps the header and exactly the rows accepted by the filter and returns the number of rows it rejected. If reading, the visitor or writing raises, the original file is left untouched. The visitor sees every row exactly once, in order, with its 0-based index.',
  ['inputs', 'fault_sequences'], 'all file contents, visitors and failure points during the edit',
  'Only successful runs with fixed visitors are tested.', ['dsv.py'],
  [('rewrite, add_rows, filter_rows_as_dict, DictFilter', 'src/csvw/dsv.py')], ['file content after the call', 'return value'])
p('C05', 'Reading a value enforces exactly the declared datatype constraints',
  'Reading a cell with a datatype succeeds only if the parser of its base datatype accepts the text (for the derived integer types: an integer in the range of the type) and the parsed value satisfies every declared constraint: length, minLength and maxLength for values with a length (for URIs, that of the text), and minimum/minInclusive (>=), minExclusive (>), maximum/maxInclusive (<=) and maxExclusive (<) for numeric, date and time types. A value that satisfies them all is returned unchanged; otherwise a ValueError is raised and no value is returned. Bounds and lengths of zero constrain like any other.',
  ['inputs', 'configurations'], 'all cell texts x all datatype descriptions',
  'Boundary values per constraint and per type are sampled once or never.', ['metadata.py', 'datatypes.py'],
  [('Datatype.parse/validate/read', 'src/csvw/metadata.py'), ('integer.to_python and range attributes', 'src/csvw/datatypes.py')], ['Datatype.read result or exception'])
p('C06', 'Contradictory datatype descriptions are rejected',
  'Constructing a datatype raises a ValueError when its description is contradictory: length below minLength or above maxLength, minLength above maxLength, both inclusive and exclusive variants of the same bound, a lower bound above the upper bound (or equal to it when one of them is exclusive), ordering bounds on an unordered base, or length constraints on a base without length. Descriptions without such a contradiction are accepted, and bound values of zero count like any other. The URL of a built-in datatype is refused as @id.',
  ['configurations'], 'all combinations of constraint facets and bases',
  'About ten fixed descriptions are tested, none with zero bounds.', ['metadata.py'],
  [('Datatype.__attrs_post_init__', 'src/csvw/metadata.py')], ['Datatype(...) or Datatype.fromvalue(...) raising'])
p('C07', 'Formatting a value and reading it back returns the value',
  'For boolean (with any format a|b of two distinct texts without |), string, anyURI in normal form, NMTOKEN, normalizedString (normalised text), base64Binary/binary, hexBinary, JSON (string keys), duration (without format) and floating-point (without number format, nan excluded) datatypes, reading the formatted text of a value of the type returns an equal value. For booleans the first alternative of the format means true and the second false, and any other text is rejected. Texts which do not match the regular expression given as format, as a whole, are rejected with a ValueError by string and its subtypes and by durations, as are JSON values which are invalid according to the JSON schema given as format; other texts are not rejected for their format. Invalid regular expressions, boolean formats and schemas are ignored with a warning. Parsing never returns a value for text outside the lexical space of hexBinary, boolean or NMTOKEN (Unicode word characters and . : -).',
  ['inputs', 'configurations'], 'all values of each type x all format annotations',
  'One or two values per type are round-tripped.', ['datatypes.py', 'metadata.py'],
  [('to_python/to_string/derived_description per datatype class', 'src/csvw/datatypes.py')], ['Datatype.formatted', 'Datatype.read'])
p('C08', 'Decimal and integer text respects the number format in both directions',
  'Formatting a finite decimal or integer and reading the text back returns the same number, without and with a groupChar and/or decimalChar (single characters, different from each other, no digits, letters, signs or percent signs), and the text never uses scientific notation; with a number pattern (without exponent) this holds for numbers with no more fraction digits than the pattern allows. When reading, the groupChar is ignored, the decimalChar separates the fraction, a percent (per-mille) sign divides by 100 (1000), and text with an exponent, doubled group characters, or not matching a declared number pattern is rejected with a ValueError. Text of a floating-point datatype (float, double, number) with a declared pattern (without group characters) is read as its number if it matches the pattern, including the digits of the exponent if the pattern has one, and rejected with a ValueError otherwise. INF, -INF and NaN map to the special values for decimals and are rejected for integers with a ValueError.',
  ['inputs', 'configurations'], 'all numbers x all groupChar/decimalChar/pattern settings',
  'Tests format a few numbers; exponent-form decimals with separators are not sampled.', ['datatypes.py'],
  [('decimal.to_python/to_string, integer.to_python', 'src/csvw/datatypes.py'), ('NumberPattern.is_valid', 'src/csvw/datatypes.py')], ['Datatype.formatted', 'Datatype.read'])
p('C09', 'Cells are interpreted by default, null, required, separator and datatype rules',
  'Reading a cell through a column replaces an empty cell by the default, raises ValueError if the column is required and the resulting text is a null value, returns None for null values (the inherited null list applying when the column has none of its own) and the datatype value otherwise. With a separator an empty cell gives an empty list, a null cell gives None, and otherwise every part is handled individually, empty parts being replaced by the default and null parts by None, preserving number and order of the parts. An invalid value raises ValueError in strict mode.',
  ['inputs', 'configurations'], 'all cell texts x all column descriptions and inheritance chains',
  'Interactions of default, null, required, separator and datatype are sampled in a few fixtures.', ['metadata.py'],
  [('Column.read, Description.inherit, inherit_null', 'src/csvw/metadata.py')], ['Column.read result or exception'])
p('C10', 'Writing a column value and reading the cell back returns the value',
  'For every column description and every value whose text does not collide with a null value, the default or the separator, reading the cell written for the value gives back the value: None becomes the first null value of the column and comes back as None (unless the column is required or has a separator), lists keep their length, order and None items, and atomic values come back as their datatype reads them. A column without a datatype leaves text unchanged.',
  ['inputs', 'configurations'], 'all values x all column descriptions',
  'Round trips are tested through one or two fixture files.', ['metadata.py'],
  [('Column.write, Column.read', 'src/csvw/metadata.py')], ['Column.write', 'Column.read'])
p('C11', 'Table iteration maps cells to the right columns and drops no valid row',
  'Iterating a table yields, in file order, one mapping per data row containing for every described column in the data the value the column description reads from the cell under its header, None for described non-virtual columns missing from the data, the raw text for undescribed columns, and the expanded valueUrl for virtual columns. In strict mode a row with an invalid cell or missing required value raises ValueError, or, with a log, is reported with its file name and line and left out, while all other rows are still yielded; in non-strict mode, in which described columns are matched by position, an invalid cell keeps its raw text with a warning and does not cause its row to be left out. A file lacking a required column raises ValueError.',
  ['inputs', 'configurations'], 'all table descriptions (column order, header/no header, required, virtual) x all data rows',
  'A dozen fixture files are read.', ['metadata.py'],
  [('Table.iterdicts, Schema.get_column', 'src/csvw/metadata.py')], ['rows yielded', 'log calls', 'exceptions'])
p('C12', 'Table writing puts every value into its column',
  'Writing rows to a table writes a header row with the non-virtual column names if the dialect has a header, then exactly one data row per item, in order, in which the cell of each non-virtual column holds the written form of the value given for it by name (dict items) or by position (list items), a missing dict key counting as None. With strict set, an item with a key that is no column raises ValueError. The number of items is returned, or the CSV content if no file name is given; a zipped file, which replaces the file itself, can be read back as if it were not zipped. Writing a table group writes the rows given for each table name to that table, next to the metadata file, from which the group and these rows can be read back.',
  ['inputs', 'configurations'], 'all items x all schemas and dialects',
  'A few fixed rows are written.', ['metadata.py'],
  [('Table.write, TableGroup.write', 'src/csvw/metadata.py')], ['file content', 'return value'])
p('C13', 'A primary key check fails exactly when two rows share the key',
  'For a table with a primary key, the check reports a duplicate, through the log with file name and line or by raising ValueError, for exactly those rows whose complete (possibly composite) key equals that of an earlier valid row. It succeeds if and only if all valid rows have pairwise different keys, wherever in the file they are. A table without primary key always passes.',
  ['inputs', 'configurations'], 'all data x all primary keys',
  'Two fixtures, with a single duplicate.', ['metadata.py'],
  [('Table.check_primary_key', 'src/csvw/metadata.py')], ['return value', 'log calls', 'exception'])
p('C14', 'Referential integrity fails exactly on dangling references',
  'The referential integrity check of a table group reports, through the log or by raising ValueError, every foreign key value (every list item for list-valued single-column keys) without a matching referenced key in the target table, null references (a null cell, or a composite key with a null part) excepted, and it succeeds otherwise, for any number of tables, foreign keys per table, shared targets, composite keys and key order. Strict checking additionally rejects null foreign key values and non-unique referenced keys. Foreign keys naming missing tables or columns, differing column counts or differing declared base types are reported as invalid, and the check fails.',
  ['inputs', 'configurations'], 'all data x all foreign key graphs',
  'Fixtures have one or two foreign keys.', ['metadata.py'],
  [('TableGroup.check_referential_integrity, validate_schema, foreign_keys', 'src/csvw/metadata.py')], ['return value', 'log calls', 'exception'])
p('C15', 'Metadata survives serialisation and re-reading',
  'For every valid description of a table, table group, schema, column, datatype or dialect (one read without warnings), serialising it to a dict or JSON file, with or without defaults, and reading that back gives an equal description, and serialising again gives the same document. Omitting defaults leaves out only properties whose value equals the default, so no explicitly set non-default property is lost; a null list, dialect or common property that was explicitly set to be empty is preserved.',
  ['inputs', 'configurations'], 'all valid metadata documents',
  'A few fixture documents are round-tripped.', ['metadata.py', 'utils.py', 'dsv_dialects.py'],
  [('DescriptionBase.asdict/_iter_dict_items, fromvalue/partition_properties', 'src/csvw/metadata.py'), ('attr_asdict', 'src/csvw/utils.py')], ['asdict() output', 'equality of re-read descriptions'])
p('C16', 'Inherited properties and links resolve to the nearest definition',
  'The effective value of an inherited property of a column is that of the nearest description in the chain column, schema, table, table group that sets it (to a value other than the default of the property, from which "not set" cannot be told apart), else the default; the same holds for the null list. Values that are changed after the description was used count from then on. A relative link of a description read from a local file resolves against the directory of that file, one read from a URL resolves against that URL or the declared @base, and absolute URLs are left alone.',
  ['configurations'], 'all assignments of properties along the chain; all link/base combinations',
  'Two or three chains and links are tested.', ['metadata.py'],
  [('Description.inherit/inherit_null', 'src/csvw/metadata.py'), ('Link.resolve, TableLike.base', 'src/csvw/metadata.py')], ['inherit()', 'inherit_null()', 'Link.resolve', 'base'])
p('C17', 'The SQLite schema orders tables and carries over keys and constraints',
  'Converting a table group to a database schema lists every table and every association table of list-valued foreign keys (which needs a key of one column) exactly once, each table after all tables its foreign keys reference, for any acyclic reference graph of any size, and raises ValueError for cyclic graphs and references to tables that are not described. The CREATE TABLE statements contain all columns in order, NOT NULL exactly for required ones (their own or inherited), the primary key, every foreign key with its columns paired as declared (those of a table to itself only if asked for), and, for columns that are no lists, CHECK constraints for minimum, maximum and length facets: bounds of numbers, bounds of dates to the second, lengths of strings and hexBinary; never stricter than the facets. All names are translated, those of referenced columns as columns of the referenced table, and may contain any characters.',
  ['configurations'], 'all table groups and foreign key graphs',
  'Two small schemas are tested.', ['db.py'],
  [('schema, TableSpec.from_table_metadata, TableSpec.sql, ColSpec.check/sql', 'src/csvw/db.py')], ['list returned by schema()', 'SQL text', 'constraints enforced by SQLite'])
p('C18', 'Data written to SQLite reads back unchanged',
  'For every table group that can be converted, writing rows to a database and reading them back gives, per table and in order (rows of a table whose primary key is one integer or boolean column come in the order of the key), the same values for text, integer (64 bits), boolean, decimal (up to 15 digits), floating point, binary, date and time and JSON columns and lists thereof, keeping None and empty lists apart (for lists that are no lists of keys), with list-valued foreign keys restored as the list of the referenced keys of that row. Lists are those which can be read from a cell: without null items, and those of strings without items that contain the separator, or a single empty one. Every value is stored under its own column, whatever the key order of the row. An existing database file is only overwritten when forced, and unknown columns raise ValueError unless they are to be skipped.',
  ['inputs', 'configurations'], 'all rows x all convertible table groups',
  'One or two rows per test.', ['db.py'],
  [('Database.write, Database.read, insert, select_many_to_many', 'src/csvw/db.py')], ['Database.read()', 'database file'])
p('C19', 'CSV to JSON conversion reports every row and non-null cell once',
  'Converting to JSON yields, for every table whose output is not suppressed and every data row, one row object in order with its 1-based row number, its source line in the URL, and objects describing each non-null cell of each non-suppressed column exactly once, under its property name in the object of its subject (cells without subject in an object without @id, or in the only object of the row), with its value in JSON form: numbers and booleans as such, JSON values as they are, everything else as the text of its datatype. Several values of one property of a subject form a list; equal ones of a subject with a URL may be given once, as RDF does, and rdf:type may be given as @type. No subject is described twice; one is nested in another exactly if one property of one other subject with a URL refers to it and the two are not in a circle. Minimal mode yields exactly the described objects, in order. Null cells (without a value, or with a text listed as null), empty lists and suppressed or virtual columns without a value contribute nothing. In full mode the group and each table carry their common properties and notes in simplified form (an object with @value is its value, an object with nothing but an @id is the id, everything else keeps its structure), a table its @id, its URL and the comment lines of its file, and a row with values in its title columns these texts, a single one as such.',
  ['inputs', 'configurations'], 'all data x all table descriptions',
  'Only the W3C fixture documents are converted.', ['metadata.py', 'jsonld.py'],
  [('CSVW.to_json/_table_to_json/_row_to_json/_describes', 'src/csvw/metadata.py'), ('group_triples, format_value, to_json', 'src/csvw/jsonld.py')], ['CSVW.to_json()'])
p('C20', 'Frictionless packages convert without losing columns, keys or constraints',
  'Converting a frictionless data package gives one table per CSV resource with a schema (a resource with a single path, whose scheme is file and whose format is csv), with all fields as columns in order, their types mapped to the corresponding base datatypes, the required constraint, the length, range and pattern constraints which CSVW allows for the datatype, number characters and the first boolean tokens carried over, and the primary key, the missing values and the dialect kept. Every foreign key is carried over with its fields and points to the path of the referenced resource, an empty resource name meaning the table itself.',
  ['configurations'], 'all data package descriptors',
  'Three fixture packages.', ['frictionless.py'],
  [('convert_column_spec, convert_foreignKey, convert_table_schema, convert_dialect, DataPackage.to_tablegroup', 'src/csvw/frictionless.py')], ['resulting TableGroup'])
p('C21', 'The validation verdict and exit status reflect the problems found',
  'A CSVW dataset is valid if and only if no warning was raised while loading it, the header of every table matches its description (no more cells than described columns, if any are described; a column without name has its header cell among its titles; a header cell that is a title but not the name of its column is one of its titles without language or in the language of the table, which may be inherited from the group), every cell of every table reads without complaint, no table has duplicate primary keys and the strict referential integrity check passes; once invalid it stays invalid. The data is read anew each time the verdict is asked for. The validation command exits with 0 for valid, 1 for invalid and 2 when the metadata or data cannot be processed at all (ValueError).',
  ['inputs', 'configurations', 'histories'], 'all datasets; repeated evaluation',
  'Fixture files from the W3C suite; combined problems and repeated queries are not covered.', ['metadata.py', '__main__.py'],
  [('CSVW.__init__, CSVW.is_valid, Table.iterdicts, Column.has_title', 'src/csvw/metadata.py'), ('csvwvalidate', 'src/csvw/__main__.py')], ['is_valid', 'warnings', 'exit code'])
p('C22', 'Dates and times in every supported format read and format consistently',
  'For every supported date, time and datetime format (the documented combinations of date and time formats, with a T or one blank between them, optional fractional seconds .S, .SS, ..., and, except for plain dates, an optional zone marker), reading the text that represents a value in that format returns that value, and formatting a value and reading the text back returns the value truncated to the precision of the format. Text that does not start with the format, and dates or times that do not exist (24:00 is outside of the property), raise ValueError. Formats which are no such combination raise ValueError on construction of the datatype (dates fall back to yyyy-MM-dd with a warning), whatever the format was used for before.',
  ['inputs', 'configurations'], 'all dates/times x all supported formats',
  'One value for a few formats.', ['datatypes.py'],
  [('dt_format_and_regex, dateTime._parse/to_python/to_string, date, _time, with_tz', 'src/csvw/datatypes.py')], ['Datatype.read', 'Datatype.formatted'])
p('C23', 'Name normalisation always yields usable identifiers',
  'For every text without control characters, normalising it yields a non-empty ASCII Python identifier; a text that already is an ASCII identifier and no keyword is returned unchanged, and keywords get an underscore appended. Slugs contain only ASCII letters and digits, lower-case unless asked otherwise, and slugging is idempotent.',
  ['inputs'], 'all Unicode strings', 'Six strings are tested.', ['utils.py'],
  [('normalize_name, slug', 'src/csvw/utils.py')], ['return value'])
p('C24', 'Property values of the wrong type never survive loading',
  'For every typed metadata property - the dialect flags; the string, boolean and enumerated properties of columns, schemas, tables and table groups (name, default, lang, ordered, separator, textDirection, suppressOutput, virtual, tableDirection, null, titles, transformations); the base of a datatype; lineTerminators as a text or list of texts - loading a JSON value of the wrong type or outside the value set keeps the documented default and issues a warning, a boolean never counts as an integer, and a valid value is kept unchanged without a warning. Items of columns, tables and foreignKeys which are no objects are dropped with a warning and the others kept in order. Unknown properties without a prefix are dropped with a warning, prefixed ones are kept as common properties. The value of a common property is kept unchanged, at any depth, except that an invalid @language is dropped with a warning; it raises ValueError for objects in it with a key starting with @ other than @id, @language, @type and @value, with @language but no @value, with @value and any other than exactly one of @language and @type or then with a @value that is no text, number or boolean, with an @id starting with an underscore, or with a @type that is a text but neither a term or prefixed name of the CSVW context nor a URL, or no text, list or object. A @type other than the name of the description raises ValueError. (Not covered: required, which accepts legacy values; links, URI templates, notes and datatype lengths; a @value alone in an object.)',
  ['inputs', 'configurations'], 'all JSON values for every typed property',
  'A few wrong values per property come from the W3C suite.', ['utils.py', 'metadata.py', 'dsv_dialects.py'],
  [('utils.converter', 'src/csvw/utils.py'), ('DescriptionBase.partition_properties, converter_* functions', 'src/csvw/metadata.py'), ('Dialect attribute converters', 'src/csvw/dsv_dialects.py')], ['attribute values', 'warnings'])
pathlib.Path(__file__).parent.parent.joinpath('properties.jsonl').write_text(''.join(json.dumps(x, ensure_ascii=False) + '\n' for x in P), encoding='utf8')
for x in P:
    assert len(x['title']) <= 80, (x['id'], len(x['title']))
