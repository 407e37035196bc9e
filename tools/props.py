#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(
        id=id,
        title=title,
        statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
        ),
    )
    if state:
        d["anchors"]["state"] = state
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)


X = "pandalone/xleash/"

prop(
    "C01",
    "An xl-ref text parses to exactly the parts written in it, or is rejected",
    """Any text following the documented xl-ref syntax `[url]#[sheet!][1st-edge][:[2nd-edge][:expansions]][:filters]`
    parses into exactly the url, sheet, edge coordinates, moves, modifiers, expansions, filter call (function, args,
    keywords) and options written in it, whatever the letter-case of coordinates and moves, with missing edges
    replaced by the documented top-left/bottom-right defaults, and also when encased in one of the accepted delimiters.
    Any other text is rejected with a SyntaxError when it is not of that syntax, and with a ValueError when only its
    filters are bad, never with another exception.
    Call-specifications (string, list or object) and expansion moves given on their own obey the same rules, and
    parsing never alters its input nor the result of another parse.""",
    ["inputs"],
    "for every composition of url, sheet, edges (A1/RC, special, negative), moves, modifiers, expansions and JSON "
    "filters, every 1-2 character corruption of such texts, every JSON value as a call-specification",
    "Tests sample a few dozen texts; the optional parts combine into a space where regex groups backtrack into each "
    "other (A1 vs RC, colon vs filter, sheet vs filter).",
    [X + "_parse.py"],
    [
        ("the xl-ref grammar", X + "_parse.py: _regular_xlref_regex"),
        ("edge defaults, filters & opts extraction", X + "_parse.py: parse_xlref_fragment"),
        ("delimited xl-refs", X + "_parse.py: parse_xlref"),
        ("call-spec normalisation", X + "_parse.py: parse_call_spec"),
        ("expansion splitting", X + "_parse.py: parse_expansion_moves"),
    ],
    observe=["pandalone.xleash.parse_xlref()", "the final Lasso fields"],
)

prop(
    "C02",
    "Edges of an xl-ref target the cells that the documented rules say",
    """For every sheet and every pair of edges, coordinates resolve as documented (A1 letters and numbers, R1C1 numbers,
    `^`/`_` as the first/last row or column with full cells, negatives counted from the last one, `.` taken from the
    base cell or from the 1st target), and cells written in A1 letters convert to and from numbers without loss.
    With moves, the target is the first full cell met when scanning line-by-line from an empty landing cell, or the
    last full cell contiguous on the landing row/column when the landing is full and the modifier (or a fully dependent
    2nd edge) asks so, and otherwise the landing cell itself.
    When no such cell exists the capture is empty (an error if so opted), and the two targets always span
    the captured rectangle sorted from top-left to bottom-right.""",
    ["inputs"],
    "for every sheet shape and full/empty pattern, every landing cell inside and outside the sheet, all 12 moves, "
    "all modifiers, 1st and 2nd edges, absolute/dependent/negative coordinates",
    "Tests pin a few hand-drawn sheets; the rules quantify over all full/empty patterns, including landings beyond the "
    "margins and blank borders.",
    [X + "_capture.py", X + "io/backend.py"],
    [
        ("coordinate resolution", X + "_capture.py: _resolve_coord, _resolve_cell, _col2num, coords2Cell"),
        ("search-opposite", X + "_capture.py: _target_opposite"),
        ("search-same", X + "_capture.py: _target_same"),
        ("rule enactment", X + "_capture.py: resolve_capture_rect"),
        ("margins", X + "io/backend.py: margin_coords_from_states_matrix"),
    ],
    observe=["Lasso.st, Lasso.nd, Lasso.values of pandalone.xleash.lasso()"],
)

prop(
    "C03",
    "Expansions grow the captured rectangle exactly while neighbours are full",
    """Applying expansion moves never shrinks or shifts the target rectangle: each move grows it by one line in its
    direction if and only if that neighbouring line holds at least one full cell of the sheet within the rectangle's
    span.  A move group with a count is tried at most so many times, one without a count repeats until a full round
    changes nothing, and groups apply in the order written, so that the process always terminates inside the area that
    borders full cells.  A rectangle whose surrounding lines are all empty is returned unchanged by any expansion.""",
    ["inputs"],
    "for every sheet pattern, starting rectangle (inside, across or outside the sheet) and expansion string",
    "Fix-point behaviour over arbitrary full/empty patterns; tests check a handful of patterns and move strings.",
    [X + "_capture.py", X + "_parse.py"],
    [
        ("expansion loop", X + "_capture.py: _expand_rect"),
        ("move groups", X + "_parse.py: parse_expansion_moves"),
    ],
    observe=["Lasso.st, Lasso.nd of pandalone.xleash.lasso()"],
)

prop(
    "C04",
    "A captured rectangle returns exactly its cells, in shape and in value",
    """Lassoing returns the values of precisely the cells of the captured rectangle: a bare scalar when only a single
    1st-edge cell is given, otherwise a list of rows in sheet order, each cell unchanged in value and type, with nothing
    of the sheet inside the rectangle dropped, and nothing from outside it added.  An empty capture gives an empty list
    unless empties are opted to be errors.  The sheet itself is left untouched, repeating the same xl-ref on it gives the
    same result, and mirroring or transposing the sheet along with the xl-ref mirrors or transposes the result.""",
    ["inputs"],
    "for every sheet of values (mixed types, rows, columns, blank borders, empty), every xl-ref on it",
    "Value/shape fidelity must hold on every sheet and rectangle; tests compare some fixed captures.",
    [X + "_lasso.py", X + "io/backend.py", X + "_capture.py"],
    [
        ("the lasso pipeline", X + "_lasso.py: Ranger.do_lasso"),
        ("reading rects", X + "io/backend.py: ArraySheet.read_rect"),
        ("empty captures", X + "_lasso.py: Ranger._resolve_capture_rect"),
    ],
    observe=["return value of pandalone.xleash.lasso()"],
)

prop(
    "C05",
    "Reading an Excel file gives what reading the same cells from memory gives",
    """For every workbook written to disk, lassoing any xl-ref of it by file path, or by file or remote URL, selecting the sheet by name,
    by 0-based index or by default the first, yields the same rectangle and the same values as lassoing an in-memory
    sheet with the same contents.  Cells keep their types: whole numbers as integers, other numbers as floats, text,
    booleans, dates with times (in whichever of the two date systems the workbook was saved), times of day,
    errors as NaN and blanks as None.  A sheet the workbook lacks, by name or index, is an error.""",
    ["inputs"],
    "for every workbook with 1-3 sheets of mixed-type cells with blank gaps and borders, either date system, and "
    "every xl-ref into it",
    "Tests read one or two prepared workbooks; cell types, gaps, sheet selection and refs combine freely.",
    [X + "io/_xlrd.py", X + "io/backend.py", "pandalone/utils.py"],
    [
        ("cell conversion", X + "io/_xlrd.py: _parse_cell"),
        ("sheet selection", X + "io/_xlrd.py: _open_sheet_by_name_or_index"),
        ("rect reading", X + "io/_xlrd.py: XlrdSheet.read_rect"),
        ("paths to URLs", "pandalone/utils.py: path2url, urlpath2path"),
    ],
    observe=["return value of pandalone.xleash.lasso()"],
)

prop(
    "C06",
    "The sheets cache serves the right sheet, opens once, and closes everything",
    """Over any sequence of adding, fetching, lassoing and closing, a sheets-cache answers every (workbook, sheet)
    request with the sheet most recently added or opened under that identity or any of its aliases, asking the winning
    (highest bidding) backend to open it only when it is not already cached, and a missing workbook means the base sheet
    or its sibling.  A sheet displaced by another under the same identity is closed and never served again,
    and closing the cache closes every sheet in it and leaves it empty and reusable.
    The non-caching variant returns the same sheets, opening anew on every request.""",
    ["histories"],
    "for every sequence of add / fetch / sibling-fetch / close operations over a small universe of workbooks, sheets "
    "and aliases, and every set of backends with their bids",
    "It is a statement about operation histories; tests run a few fixed add/fetch pairs.",
    [X + "io/backend.py"],
    [
        ("cache", X + "io/backend.py: SheetsFactory.add_sheet, fetch_sheet, _close_sheet, close"),
        ("keys", X + "io/backend.py: SheetsFactory._derive_sheet_keys"),
        ("bidding", X + "io/backend.py: SimpleSheetsFactory.decide_backend"),
    ],
    state=[
        dict(
            name="_cached_sheets",
            meaning="sheets by workbook-id and sheet-id",
            where=X + "io/backend.py: SheetsFactory",
        )
    ],
    observe=["sheets returned by fetch_sheet()", "open/close calls seen by the backends and sheets"],
)

prop(
    "C07",
    "Re-dimensioning keeps every captured value, in order, in the requested shape",
    """The re-dimensioning filter applies the dimension (and transposition) given for the kind of the captured rectangle -
    single reference, one cell, row, column or table - and leaves values untouched where none is given.  Its result has
    the requested number of dimensions whenever this is possible without losing values, and always holds exactly the
    captured values in row-major order (column-major if transposed).  Requesting the dimension that values already have,
    without transposition, changes nothing, and transposing twice gives back the original.""",
    ["inputs"],
    "for every captured rectangle kind and size, every list of dimension specs (None, 0-3, with/without transpose)",
    "Shape/permutation law over all sizes; tests cover a table of examples.",
    [X + "_filter.py"],
    [
        ("reshaping", X + "_filter.py: _redim, _updim, _downdim"),
        ("classification", X + "_filter.py: _classify_rect_shape, redim_filter"),
    ],
    observe=["values returned by pandalone.xleash.lasso() with a redim filter"],
)

prop(
    "C08",
    "Element-wise filters transform exactly the selected elements and nothing else",
    """Recursive-lassoing and python-evaluation replace every selected string element of the captured values, at any nesting
    of lists and dictionaries, by what that element denotes on its own (the values its xl-ref captures, relative to its
    own cell and sheet where so written, or the value of its expression), and leave all other elements, the
    structure and the order as they were; strings that are not xl-refs or expressions stay, unless strictness was asked.
    Relative references resolve against cells as captured, that is, only while the filters before kept each value in its place.
    The include/exclude lists select by dictionary key, the depth limits how many levels get entered (negative means all,
    zero none), and any sub-filters apply on each replaced element only.  Series are treated as dictionaries of their labels, and DataFrames as those of
    their columns, and keep their kind.  Expressions (also those of the bulk python-filter) may return a whole lasso instead of values, where
    the options in effect are kept unless it has its own.""",
    ["inputs"],
    "for every nested structure of lists/dicts/scalars with xl-ref and expression strings, every include / exclude / "
    "depth combination",
    "Universal over nested structures and selection options; tests show a few structures.",
    [X + "_filter.py"],
    [
        ("element-wise runner", X + "_filter.py: run_filter_elementwise"),
        ("recursion", X + "_filter.py: _recurse_element_func, recursive_filter"),
        ("evaluation", X + "_filter.py: _pyeval_element_func, pyeval_filter"),
    ],
    observe=["values returned by pandalone.xleash.lasso() with recurse/pyeval filters"],
)

prop(
    "C09",
    "Filters compose in order, obey their options, and fail only as ValueErrors",
    """Piping filters equals applying them one after another, each on the values that the previous one returned, with the
    arguments and keywords written.  Options in an xl-ref overlay the base options for that xl-ref alone (the rest remain
    in effect, also for nested lassos, and the caller's options are never modified); a failing or
    unknown filter is a ValueError, unless laxness was asked for (for that call or in the options), where it leaves
    values as they were and the pipe continues.  Any lasso either succeeds or raises one of SyntaxError, ValueError or
    the empty-capture error (also an IndexError, for a lone cell outside of its sheet), repeats with the same outcome, and a sheets-cache created implicitly for it is always closed.
    The lasso returned (or if it failed, the last intermediate one of the ranger) tells all that was reached: the parts parsed,
    the sheet, the coordinates captured, the options and the values before the filter that failed.""",
    ["inputs", "histories"],
    "for every pipe of recording/failing/real filters with lax settings at call, xl-ref and base level",
    "Composition/overlay laws over arbitrary pipelines; tests check single filters and few pipes.",
    [X + "_lasso.py", X + "_filter.py", X + "_parse.py"],
    [
        ("filter invocation", X + "_lasso.py: Ranger.make_call, _run_filters"),
        ("options overlay", X + "_lasso.py: Ranger._make_init_Lasso, _parse_and_merge_with_context"),
        ("piping", X + "_filter.py: pipe_filter"),
    ],
    observe=["values, opts and exceptions of pandalone.xleash.lasso()"],
)

prop(
    "C10",
    "Path mappings rename and relocate paths exactly as their rules say",
    """For every list of (from, to) rules and every path, mapping the path rewrites each of its steps by the rule whose
    from-path matches the original steps so far: an exact step wins over regular expressions, a later regular expression
    over an earlier one, captured groups of the final step get expanded, and rules nested below all matching steps stay
    in effect; a rule counts as given when its from-path (or one below it) was last mentioned.  A plain to-path renames or relocates below the mapped parent, a dotted one is relative to the original
    step, a slashed one re-roots, steps without a rule are unchanged (with any of their slashes still escaped), and a later rule for the same from-path overrides
    an earlier one.  Mapping or combining mappings never modifies them, so the same path always maps the same.""",
    ["inputs"],
    "for every set of rules (exact, regex, nested, rooted, relative, root) and every rooted or relative path",
    "The merging of all matching branches depends on rule order, overlap and depth; tests show hand-picked rules.",
    ["pandalone/mappings.py"],
    [
        ("rules hierarchy", "pandalone/mappings.py: pmods_from_tuples, Pmod._append_into_*"),
        ("merging", "pandalone/mappings.py: Pmod._merge, _override_steps, _override_regxs"),
        ("descending", "pandalone/mappings.py: Pmod.descend, alias"),
        ("mapping", "pandalone/mappings.py: Pmod.map_path"),
        ("normalising", "pandalone/mappings.py: _append_step, _join_paths"),
    ],
    observe=["results of map_path()/map_paths()", "pmods equality before/after"],
)

prop(
    "C11",
    "Path-steps name the mapped paths of exactly what was referenced or assigned",
    """Referencing attributes on a path-step builds the hierarchy once (the same reference gives the same step), each step being
    a string equal to its mapped name, or to its own if unmapped, while its original name remains known; the paths listed are
    exactly the mapped leaf (or tagged) paths, sorted and without duplicates.  Assigning a string renames just that step,
    assigning a step grafts an independent copy of it named after the attribute, any other assignment is refused without effect,
    and neither touches other steps, other hierarchies or the mappings it was built from.  Tags, locks and
    schemas stick to their step: a renamed step cannot be locked nor a locked one renamed, a relocated one cannot be fixed either.""",
    ["histories"],
    "for every sequence of attribute references, string/step assignments, taggings and lockings over hierarchies built "
    "with or without mappings",
    "It is about mutation histories with shared mappings; tests run short scripted examples.",
    ["pandalone/mappings.py"],
    [
        ("step creation", "pandalone/mappings.py: Pstep.__new__, __getattr__, __make_cstep"),
        ("assignment", "pandalone/mappings.py: Pstep.__setattr__"),
        ("listing", "pandalone/mappings.py: Pstep._paths, _derrive_map_tuples, _iter_hierarchy"),
        ("locks and tags", "pandalone/mappings.py: Pstep._locked, _fix, _lock, _tag, _tag_remove"),
    ],
    observe=["str values, _paths(), _derrive_map_tuples(), _tags, _locked"],
)

prop(
    "C12",
    "JSON-pointers address, set and list exactly the documented node",
    """Escaping and unescaping of pointer parts are inverse, and splitting then joining a pointer gives it back.
    For every nested document (also with DataFrames of columns, Series of labels or positions, and, for paths, objects of
    attributes), each pointer enumerated from it resolves to exactly its node, a pointer addressing
    nothing (also a negative index, or into a string) yields the given default or the reference error, and a malformed (non-rooted) one the reference error;
    relative paths resolve against the current node and rooted ones against the root.  After setting a value at a pointer,
    resolving it gives that value, missing intermediate nodes get created, lists append only on `-` or at their end and
    refuse any other out-of-bounds, negative or non-numeric indices, and all nodes elsewhere remain unchanged.""",
    ["inputs", "histories"],
    "for every nested document of dicts/lists/pandas-objects/scalars, pointer parts with '/', '~', digits, unicode and empty strings, "
    "and sequences of sets",
    "Laws over all documents and pointers, particularly with characters needing escape and list boundaries.",
    ["pandalone/pandata.py"],
    [
        ("escaping", "pandalone/pandata.py: escape_jsonpointer_part, unescape_jsonpointer_part"),
        ("resolving", "pandalone/pandata.py: resolve_jsonpointer, resolve_path"),
        ("setting", "pandalone/pandata.py: set_jsonpointer"),
        ("listing", "pandalone/pandata.py: build_all_jsonpaths, iter_jsonpointer_parts"),
    ],
    observe=["return values and document contents"],
)

prop(
    "C13",
    "Validating pandas/numpy data agrees with validating their plain JSON equivalent",
    """For every JSON-schema and document, the data validator reports errors for a document holding DataFrames, Series,
    arrays or numpy scalars if and only if a standard JSON-schema validator reports them for the same document
    with plain dicts, lists and scalars in their place, at the same locations and for the same keywords - where a DataFrame is
    an object of its columns (its size limits count rows), a Series an array and, if its labels are texts, also an object,
    and NaNs also nulls; a document
    of plain JSON types is judged exactly as the standard validator does.  So with any format-checker and
    reference-resolver given, and any size of documents.  Booleans never pass as numbers
    nor numbers as booleans, and validating without default-filling changes neither the document nor the schema.""",
    ["inputs"],
    "for every schema over type, enum, properties, required, items, bounds, lengths, patterns, uniqueness and "
    "combinators, and every matching or violating document and its pandas-embedded variants",
    "Equivalence over the product of schema keywords and container types; tests check single keywords.",
    ["pandalone/pandata.py"],
    [
        ("type checks", "pandalone/pandata.py: PandelVisitor, _is_* functions"),
        ("keyword rules", "pandalone/pandata.py: PandelVisitor._rule_* / rule overrides"),
    ],
    observe=["errors yielded by PandelVisitor.iter_errors()"],
)

prop(
    "C14",
    "Schema defaults fill exactly what is missing, nulls go only where opted",
    """With default-filling enabled, validating a document adds, at every depth, precisely the schema's default for each property
    that is missing and declares one; nulls (also NaNs) that the property's type does not admit are replaced by the default, if
    there is one and nulls are opted as missing, otherwise dropped exactly when null-removal is opted;
    admitted nulls and explicitly given non-null values are never replaced.  Flags in the schema of a
    property prevail over the respective options.  A filled document is unaffected by filling again (unless nulls were
    dropped from properties with defaults), filled-in defaults are independent copies that never alias the schema, and with
    all options off nothing in the document changes.""",
    ["inputs"],
    "for every schema tree with defaults at any depth, document with missing/null/present properties, and each "
    "combination of the three options",
    "Quantifies over all trees and option combinations; tests show single-level examples.",
    ["pandalone/pandata.py"],
    [
        ("auto-default rules", "pandalone/pandata.py: PandelVisitor auto_default, auto_default_nulls, auto_remove_nulls"),
    ],
    observe=["the validated document"],
)

prop(
    "C15",
    "Building a model merges and validates its submodels without touching them",
    """Building a model merges its submodels so that later ones override or supplement earlier ones, recursively by key for
    dictionaries and by column/index for DataFrames and Series (maps meeting those are first converted by their constructors),
    while sequences, scalars and anything meeting a different kind are overwritten whole; nulls never override (in
    DataFrames and Series, NaNs neither, and types of values are kept if those merged are alike), and merging two nulls is an error.  The submodels given by the caller remain
    unmodified and unshared with the result, whatever happens, and building again gives the same.
    Building runs its stages (prevalidate each submodel, merge, validate filling defaults, curate) in order, stops after
    the first one with errors yielding all of that stage's errors and a last one telling the stage it gave up, while
    calling build() raises just the first of those errors; only a model that passed all stages is reported (and flagged) as
    such, and before its curation, it passes re-validation.  Modifying the global operations replaces just the
    (non-empty) ones given.""",
    ["inputs", "histories"],
    "for every sequence of submodels, schemas with or without defaults, valid or violating data, and failing curate-functions",
    "Over arbitrary trees of submodels and failure points; tests merge a few pairs.",
    ["pandalone/pandata.py"],
    [
        ("merging", "pandalone/pandata.py: Pandel._clone_and_merge_submodels"),
        ("staging", "pandalone/pandata.py: Pandel.build_iter, Pandel.build"),
        ("validation", "pandalone/pandata.py: Pandel._prevalidate, Pandel._validate"),
    ],
    observe=["yielded errors, the built model, deep-copies of the inputs"],
)

prop(
    "C16",
    "JSON encoding round-trips every supported value",
    """Any document of JSON values mixed with the supported rich types - DataFrames, Series, arrays, dates, functions or
    other pickle-able objects - that the encoder accepts decodes back to an equal document with the same types, dtypes,
    indexes and columns.  The encoded text is itself valid JSON, and texts of plain JSON documents decode exactly as with
    the standard library.""",
    ["inputs"],
    "for every nested document with rich leaves, including empty, unicode, NaN, multi-dtype and datetime data",
    "Round-trip over binary payloads and dtypes fails only for particular byte patterns; tests encode a few objects.",
    ["pandalone/pandata.py"],
    [
        ("codec", "pandalone/pandata.py: JSONCodec.Encoder, JSONCodec.Decoder"),
    ],
    observe=["decoded documents"],
)

prop(
    "C17",
    "Components discover and use exactly the inputs and outputs their code refers to",
    """Building a component discovers precisely the (leaf) input and output paths that its function references - its root steps named
    after the function without its prefix, or as given - under whatever path mappings are in effect, plus any paths the
    function added by itself; building again forgets whatever was discovered or referenced before, and gives
    the same as a new component.  Running it reads its inputs from and writes its outputs to those mapped places of the value-tree, and running it
    unbuilt fails.  Building an assembly builds its components (also those of nested assemblies) with the mappings given, and its
    inputs and outputs are the sorted unions of theirs, without duplicates.  Building does not modify the mappings.""",
    ["inputs", "histories"],
    "for every set of generated component functions over input/output paths and every path mapping",
    "Over all reference patterns and mappings; tests use one or two fixed functions.",
    ["pandalone/components.py", "pandalone/mappings.py"],
    [
        ("dependency discovery", "pandalone/components.py: FuncComponent._build"),
        ("running", "pandalone/components.py: FuncComponent.__call__"),
        ("assembling", "pandalone/components.py: Assembly"),
    ],
    observe=["_inp/_out paths, value-tree after running"],
)

prop(
    "C18",
    "File-path, URL and file-name helpers are consistent and never clash",
    """Normalising, absolutising or converting a path (expanding its user-folder and variables) keeps any trailing slash, is
    idempotent, and otherwise gives what the standard library does, denoting the same file.  Converting a path into a URL-path and
    back gives the same path; the URL of a local path denotes its absolute path (optionally expanded), on its drive if one is given, while existing
    URLs, also remote ones, pass unchanged.  Ensuring file extensions
    (with or without dots, case-insensitive, compound, or further ones as regexes) is
    idempotent and appends the first extension only when none is there; a unique filename never exists, equals the
    requested one when free, keeps its directory and extension, and comes from the generator given, if any.  Ensuring a directory leaves it
    existing (a new one with the mode given), whether it was there, missing, or appears meanwhile, and fails if anything else is in its place.
    Searching a program lists its executables in the order of the folders searched.""",
    ["inputs", "histories"],
    "for every path text (relative, absolute, dots, spaces, unicode, trailing slashes), extension list and set of "
    "already existing files",
    "Round-trips over all path texts and directory states; tests sample POSIX/Windows literals.",
    ["pandalone/utils.py"],
    [
        ("paths", "pandalone/utils.py: normpath, abspath, convpath"),
        ("URLs", "pandalone/utils.py: path2urlpath, urlpath2path, path2url"),
        ("programs", "pandalone/utils.py: py_where, where, which"),
        ("filenames", "pandalone/utils.py: ensure_file_ext, make_unique_filename, generate_filenames, ensure_dir_exists"),
    ],
    observe=["returned texts, files in a scratch directory"],
)

prop(
    "C19",
    "Small text and value converters obey their stated laws for every input",
    """Texts convert to booleans, ignoring case and surrounding blanks, as yes/true/on, no/false/off/0 or
    nothing, and any other one is true; non-texts are a ValueError, or (for objects) convert by their own truth.
    Sequences become lists of exactly their items, and strings and anything else lists holding just them,
    never sharing nor modifying the sequence given.  Texts of names with units split into the name and the units in any of the
    accepted notations (missing units are None), and malformed ones give None.  Identifier conversions to snake_case and command names
    separate any capitals following a small letter or digit, and are stable when applied again; formatting pairs aligns any keys,
    and the first line is the first non-blank one, stripped.  Each text written to a log-writer
    reaches its logger at its level as a record, verbatim, in order, and without its line-ending, empty ones excepted.""",
    ["inputs"],
    "for every boolean word/case/padding, value, unit notation, identifier and chunked text",
    "Per-input laws; tests list samples.",
    ["pandalone/utils.py", "pandalone/pandata.py"],
    [
        ("booleans, lists", "pandalone/utils.py: str2bool, obj2bool, as_list"),
        ("names", "pandalone/utils.py: camel_to_snake_case, camel_to_cmd_name"),
        ("log-writer", "pandalone/utils.py: LoggerWriter"),
        ("units", "pandalone/pandata.py: parse_value_with_units"),
    ],
    observe=["returned values, log records"],
)

prop(
    "C20",
    "Importing VBA modules brings exactly the files matched, saved macro-enabled",
    """Importing VBA files into a workbook (the one given, or else the active one) leaves it with exactly one module per
    base-name of the files matching the wildcard - relative to the working folder or absolute - named after it and having the code of
    a file so named, replacing only any same-named module (case-insensitively); all other components and workbooks stay as they were.
    The workbook is then saved exactly once, with these modules: under the output filename given,
    in place if it is already in a macro-enabled format, or else as a macro-enabled clone suffixed with `.xlsm`; without any file matched nothing is
    changed nor saved.  Any failure of Excel is reported and nothing half-done is saved, protected or untrusted VBA projects are reported
    along with instructions, no workbook at all is a ValueError, and the alerts of Excel are always left enabled.  Removing modules removes
    exactly those named, in any case, or all modules if none is named.  The command-line does the same, or exits with its usage
    on bad arguments.  Filenames are told to be of Excel by their extension, in any case; the presence of Excel
    is checked just once; and Windows shortcuts are saved once, with exactly the attributes given.""",
    ["inputs", "histories", "faults"],
    "for every set of VBA files, wildcard, workbook (name, components, saved or not), history of imports and failing call of Excel",
    "Needs Excel on Windows; the tests are skipped without it.",
    ["pandalone/xlsutils.py", "pandalone/winutils.py"],
    [
        ("importing", "pandalone/xlsutils.py: import_vba_into_excel_workbook, _import_vba_files, _remove_vba_modules, _gather_files"),
        ("access", "pandalone/xlsutils.py: _get_xl_vb_project"),
        ("saving", "pandalone/xlsutils.py: _save_excel_as_macro_enabled, _save_workbook"),
        ("command-line", "pandalone/xlsutils.py: main"),
        ("detection", "pandalone/xlsutils.py: is_excel_file, check_excell_installed"),
        ("shortcuts", "pandalone/winutils.py: win_create_shortcut, win_folder"),
    ],
    observe=["components & saves of simulated workbooks, errors, dialogs, exit texts"],
)

prop(
    "C21",
    "The df and sr filters give what pandas would make of the very same table",
    """The `df` filter turns the table captured into the DataFrame that pandas.read_excel() gives for a sheet having just this table,
    with the same arguments (header rows, also many; index columns, also many; names, usecols as numbers, labels or Excel ranges; dtype,
    texts for booleans & nulls with or without the default ones, rows to skip on top or bottom or to read, dates, thousands, comments):
    same labels & names of axes, types, values and nulls, blank rows included; wherever the table lies in the sheet, from any backend, given
    positional or keyword arguments, alone or in a pipe; where pandas rejects the table or the arguments, lassoing fails; `squeeze` gives a
    Series for single columns, and blank captures empty DataFrames.  DataFrames written by pandas with multi-index rows or columns are read back.  The `sr`
    filter turns 2-column tables into the Series with these labels & values in their order, with the arguments of Series (name, dtype, index), and fails
    for tables of another width.  Coordinates and all else of the lasso stay as captured.""",
    ["inputs"],
    "for every table, position in the sheet, backend and combination of arguments",
    "No stable test runs the filters; arguments interact with each other and with blanks, types and multi-headers.",
    ["pandalone/xleash/_pandas_filters.py", "pandalone/xleash/_filter.py"],
    [
        ("df", "pandalone/xleash/_pandas_filters.py: _df_filter, _maybe_convert_usecols, _validate_header_arg"),
        ("sr", "pandalone/xleash/_pandas_filters.py: install_filters"),
        ("plugins", "pandalone/xleash/__init__.py: _init_plugins"),
    ],
    observe=["DataFrames & Series returned, rectangles, errors"],
)

prop(
    "C22",
    "Filters named after standard constructors give what those make of the values",
    """The filters `numpy`, `dict`, `odict` and `sorted` replace the values captured (or left by the previous filters) with what np.array(),
    dict(), OrderedDict() and sorted() give for these values and the arguments of the call - same types, dtypes, keys, order and items -
    and leave coordinates and all else of the lasso as they were; alone, chained in pipes, or as sub-filters of `recurse`; where the constructor
    fails, lassoing fails with ValueError, or if `lax`, keeps the values and goes on.""",
    ["inputs"],
    "for every rectangle of values, sequence of these filters, and arguments",
    "Stable tests run these filters on a couple of tables; widths, duplicate or unhashable keys, mixed types and chains are not sampled.",
    [X + "_filter.py", X + "_lasso.py"],
    [
        ("filters", X + "_filter.py: install_default_filters"),
        ("calls", X + "_lasso.py: Ranger.make_call"),
    ],
    observe=["values & rectangles returned, errors"],
)
prop(
    "C23",
    "Plugins are discovered, loaded and installed, independently of each other",
    """(Re-)initializing plugins finds those of all distributions declaring entry-points in the group, whenever they appeared; all are
    loaded, in the order of their names, before any gets installed, in the same order, by calling its installer, if it has one;
    a plugin that fails loading or installing is just logged, without affecting the rest; the stages that each one completed are recorded, and
    without any plugin it is a ValueError.  The filters and backends they add take effect in
    lassoing, and initializing again neither duplicates nor loses those of the library.""",
    ["inputs", "fault_sequences", "histories"],
    "for every set of distributions & plugins, failing in any way, discovered any number of times",
    "Tests just import the library with its own two plugins.",
    [X + "__init__.py"],
    [
        ("plugins", X + "__init__.py: _init_plugins, _plugins_installed"),
        ("hooks", X + "__init__.py: io_backends, installed_filters"),
    ],
    observe=["log of loads & installs, stages, filters & backends in effect"],
)

prop(
    "C24",
    "What an xl-ref omits comes from its context; lassoings leave nothing behind",
    """Any part that an xl-ref does not write (book, sheet, 2nd edge, expansions, filter call) is taken from the field of the context
    given when lassoing, with the same result as if it had been written, while the parts it does write prevail over those of the context.
    Each lassoing depends only on its xl-ref, context, base-options and sheets: whatever previous (or nested) lassoings with the same
    Ranger captured, filtered, scribbled on their options or arguments, or failed with, it gives the same lasso, last stage
    or error as a brand new Ranger, and the base-options, the context and the sheets are never modified.""",
    ["inputs", "histories"],
    "for every split of an xl-ref into text and context, and every history of lassoings with a Ranger",
    "Tests lasso once or twice with the sheet only as a context.",
    [X + "_lasso.py", X + "_filter.py"],
    [
        ("merging", X + "_lasso.py: Ranger._make_init_Lasso, _parse_and_merge_with_context, do_lasso, lasso"),
        ("calls", X + "_lasso.py: Ranger.make_call, _run_filters"),
        ("recursion", X + "_filter.py: _recurse_element_func, run_filter_elementwise"),
    ],
    state=[X + "_lasso.py: Ranger.base_opts, Ranger.intermediate_lasso"],
    observe=["fields of the final lasso, errors, intermediate stage, options, contexts & sheets afterwards"],
)

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as fd:
        for p in P:
            fd.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
