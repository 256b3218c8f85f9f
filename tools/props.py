IN = ["inputs"]
CAPF = XL + "_capture.py"
TESTS_SAMPLE = ("the tests sample a few %s; the guarantee quantifies over all of them")

prop("C01", "Cell addresses resolve to exactly one zero-based coordinate, and back",
     "Every A1 or RC cell address resolves to the one cell it names: a column's letters in any case are its "
     "bijective base-26 number, positive numbers are one-based, negative numbers count back from the bottom/right "
     "margin, `^` and `_` are the top/left and bottom/right margins and `.` is the base cell. Zero, a negative that "
     "falls before the sheet's start, a `.` without a base and any other text are refused with a ValueError, never "
     "silently mapped to another cell. Naming a resolved cell in A1 style and resolving that name gives the same cell, "
     "for columns of any width.",
     IN, "all rows and columns (any number of letters), all margins and bases",
     "tests try a dozen addresses; nothing bounds the number of letters or the margins",
     [CAPF], [("column letters to number", "_col2num"), ("row number", "_row2num"),
              ("special and negative coordinates", "_resolve_coord"), ("cell", "_resolve_cell"),
              ("naming", "coords2Cell")],
     [], "resolve_capture_rect and coords2Cell results")

prop("C02", "Sheet margins are the tightest box around the non-empty cells",
     "For a sheet of any size, the top-left margin is the smallest row and smallest column holding a non-empty cell and "
     "the bottom-right margin the largest row and column holding one; the two are computed independently per axis. "
     "A sheet without non-empty cells has both margins at the first cell.",
     IN, "all boolean cell-state matrices of any size",
     "tests use a handful of small matrices",
     [XL + "io/backend.py"], [("margins", "margin_coords_from_states_matrix"), ("cached per sheet", "ABCSheet.get_margin_coords")], [],
     "margin coordinates returned for a states matrix or by a sheet")

prop("C03", "Moving from an empty landing cell finds the first full cell in traversal order",
     "From an empty landing cell, a single move stops at the nearest full cell in that direction on the landing row or "
     "column; two moves scan line by line, each line along the first move and lines advancing along the second, and stop "
     "at the first full cell met. If the scanned quadrant holds no full cell the capture fails with the "
     "empty-capture error, and no cell outside the scanned quadrant is ever returned.",
     IN, "all sheets, landing cells (also outside the sheet) and the twelve move combinations",
     "tests cover a few 5x6 sheets; traversal order matters only for particular arrangements",
     [CAPF], [("search from empty", "_target_opposite"), ("entry", "resolve_capture_rect")], [],
     "coordinates of the captured cell")

prop("C04", "Moving from a full landing cell stops at the end of its contiguous block",
     "From a full landing cell, a `+` move goes to the last full cell of the unbroken run of full cells that starts at "
     "the landing cell in the move's direction, or to the sheet's edge. With two perpendicular moves each axis is "
     "resolved independently on the landing cell's own row and column.",
     IN, "all sheets, full landing cells and moves", "tests cover a few fixed sheets",
     [CAPF], [("run to the end", "_target_same"), ("entry", "resolve_capture_rect")], [],
     "coordinates of the captured cell")

prop("C05", "A capture targets both edges by the documented rules and orders the rectangle",
     "The first edge moves only if its landing cell is empty, or is full and marked `+`; the second edge does likewise, "
     "resolves `.` against the first edge's final cell, and a second edge landing on `..` also moves when full unless "
     "marked `?`. The two resulting vertices are returned as top-left and bottom-right whatever their order in the "
     "reference, expansions are applied to that rectangle, and a reference without second edge or expansion yields "
     "a single cell.",
     IN, "all sheets, edges, modifiers, bases and expansion specs",
     "the combinations of state, modifier and edge are only sampled",
     [CAPF], [("capture", "resolve_capture_rect"), ("vertex ordering", "_sort_rect")], [],
     "the returned pair of coordinates")

prop("C06", "Expansion grows the rectangle exactly by full adjacent lines, and terminates",
     "Each expansion step in a direction grows the rectangle by the adjacent line of the current rectangle if and only "
     "if that line holds a full cell, in the order the moves are written and with their repetition counts; an "
     "uncounted group repeats until a whole round changes nothing. The rectangle never shrinks or leaves the "
     "sheet at the top or left, and expansion always terminates.",
     IN, "all sheets, initial rectangles and expansion strings",
     "termination and the fixed point over unbounded sheets are out of reach of examples",
     [CAPF, XL + "_parse.py"], [("expansion", "_expand_rect"), ("parsing moves", "parse_expansion_moves")],
     [], "the returned rectangle")

PDF = "pandalone/pandata.py"
prop("C07", "JSON-pointer steps are the unescaped parts, and escaping never loses a key",
     "Escaping any string as a pointer step yields a text without `/` from which unescaping recovers exactly that "
     "string, and unescaping replaces each `~1` by `/` and each `~0` by `~` reading left to right, so `~01` is `~1`. "
     "Splitting a pointer yields one unescaped step per `/`, in order, none for the empty pointer, and a non-empty "
     "pointer that does not start with `/` is refused.",
     IN, "all strings and pointers of any length", "replacement-order mistakes show only for particular mixes of ~ and /",
     [PDF], [("escape", "escape_jsonpointer_part"), ("unescape", "unescape_jsonpointer_part"),
             ("split", "iter_jsonpointer_parts"), ("relaxed split", "iter_jsonpointer_parts_relaxed")],
     [], "returned strings and steps")

prop("C08", "Pointers and paths resolve step by step, and setting one changes only its slot",
     "Resolving a pointer (or a relaxed path) takes each step in turn - index of a sequence, key of a mapping and, for "
     "paths, attribute or root for an empty step - and returns that node; the first step that cannot be taken gives the "
     "default or a RefResolutionError, never another exception or node. Setting a pointer's value writes exactly one "
     "slot of the document, the pointed one or the place where the missing branch is attached (`-` and the length append "
     "to a list, a leaf in the way is replaced), after which the pointer resolves to that value. A pointer that "
     "names no slot (empty, leaf root, bad list index) is refused and leaves the document as it was.",
     IN, "all documents, pointers, values and defaults", "tests try a few documents; mixes of lists, leaves and falsy nodes are not",
     [PDF], [("resolve", "resolve_jsonpointer"), ("resolve path", "resolve_path"), ("set", "set_jsonpointer")],
     [], "the resolved node, the document after setting, the exception raised")

MPF = "pandalone/mappings.py"
prop("C09", "Joining path steps gives the normalised path and never climbs above the root",
     "Joining steps left to right, each step is split at its slashes: an empty part restarts the path at the root, `.` "
     "changes nothing, any other part is appended, and `..` drops the last part. Dropping never climbs above the root of "
     "a rooted path, and a relative path keeps its leading `..` parts; the resulting path is normalised, holding no "
     "`.` or inner empty parts and `..` only in front.",
     IN, "all sequences of steps and all step texts",
     "tests list some joins; corner cases depend on sequences of dots and roots",
     [MPF], [("append one part", "_append_step"), ("join", "_join_paths")], [], "returned steps and joined path")

prop("C10", "Path-mappings apply every matching rule, later overriding, inputs untouched",
     "Building a pmod from (pattern, value) tuples and mapping a path applies, step by step from the root, every "
     "regex rule that matches the step, in order, and then the exact-name rule; renames of later rules replace earlier ones, "
     "regex groups are expanded in the rename, and child rules of all matching rules are merged with the later ones "
     "prevailing. Steps without a rule are kept as they are. Merging or mapping never modifies the pmods involved.",
     IN, "all rule sets and paths", "tests use a few rule sets; overlaps of several patterns are combinatorial",
     [MPF], [("merge", "Pmod._merge"), ("match", "Pmod._match_regxs"), ("descend", "Pmod.descend"), ("alias", "Pmod.alias"),
             ("map", "Pmod.map_path"), ("build", "pmods_from_tuples")], [], "the mapped path; the pmods before and after")

prop("C11", "Psteps carry their mapped names, keep their locks and list every path once",
     "A pstep's text is the name assigned to it, else the name its mappings give it, else its own, and referencing it again "
     "gives the same step with its children, tags and lock. A locked step can be neither renamed nor relocated and a fixed one "
     "not relocated, in whichever order locking and naming happen: the offending operation is refused and changes nothing. "
     "The listed paths are the joined texts of the leaf (or tagged) steps, each once, and using psteps never modifies "
     "the mappings they were made from.",
     IN, "all mappings and all histories of references, names, locks and tags",
     "tests exercise short scripts; bypasses need particular orders of operations",
     [MPF], [("construction", "Pstep.__new__"), ("naming through the parent", "Pstep.__setattr__"),
             ("lock", "Pstep._locked"), ("paths", "Pstep._paths")], [], "texts, locks, tags and paths; the pmods afterwards")
prop("C12", "An xl-ref is accepted exactly by its grammar and split into the documented parts",
     "A reference is accepted exactly when it is `[file]#[sheet!][edge][:[edge][:expansions]][:json-filters]`, optionally "
     "enclosed in a pair of delimiters; anything else is a SyntaxError, and well-formed references with bad JSON, options or "
     "call-specs are ValueErrors. Every part is assigned to its own field: A1 and RC coordinates, moves and modifiers in capitals, "
     "missing edges default to top-left and bottom-right where a colon asks for them, the options and the call-spec "
     "(name, args, kwds in any of the three forms) come from the filters.",
     IN, "all reference texts and filter values", "tests list references; wrong acceptance or mis-assigned parts need particular combinations",
     [XL + "_parse.py"], [("fragment", "parse_xlref_fragment"), ("edges", "_parse_edge, Edge_new"), ("filters", "parse_call_spec"),
                          ("reference", "parse_xlref")], [], "the parsed fields or the exception")


prop("C13", "A filter call runs its filter once, and fails or is lax exactly as told",
     "Calling a filter by its call-spec runs the filter of that name once, on the current lasso and with the call-spec's arguments "
     "except `lax`, and its lasso is the result. When the name is unknown, the filter raises or returns no lasso, the call raises "
     "ValueError - unless `lax` (the call-spec's own, else the option, else false) is true, when the lasso stays as it was. "
     "A pipe makes its calls one after another, each on the previous one's result, and calling never alters the call-spec.",
     IN, "all filters, arguments, options and any number of piped filters",
     "tests call a few filters; precedence of lax and repeated use of a call-spec show only in combinations",
     [XL + "_lasso.py", XL + "_filter.py"], [("one call", "Ranger.make_call"), ("pipe", "pipe_filter")], [],
     "the returned lasso or the exception; the calls made; the call-spec afterwards")

prop("C14", "Redim keeps every value, its type and order, under the dimensions asked for",
     "The `redim` filter applies the dimension given for the shape of the captured rectangle - no second edge, one cell, one row, "
     "one column or a table - and leaves the values as they are when none is given. Fewer dimensions are inflated on the left, more are "
     "reduced by dropping the leading size-1 dimensions, or flattened when there are not enough of them; a pair with a true second item "
     "transposes first. Every value keeps its type and its place in row-major order.",
     IN, "all rectangles, values and requested dimensions",
     "tests list shapes; wrong axes show only for particular sizes",
     [XL + "_filter.py"], [("shape of the rectangle", "_classify_rect_shape"), ("reshape", "_redim"), ("filter", "redim_filter")], [],
     "the filtered values")

prop("C15", "Element-wise filters visit the right elements at their true coordinates",
     "Recursive and evaluating filters visit the values in order, diving into lists and indexed values down to `depth`, taking of indexed ones "
     "only the keys that `include` and `exclude` admit. An element is offered together with the coordinates of the cell it came from (row "
     "and column offsets from the captured rectangle's top-left), so references inside cells resolve relative to their own cell. An "
     "element the filter processes is replaced by the filtered result, the others stay as they were, and a failing one is a ValueError.",
     IN, "all nested values, positions, depths, key filters and outcomes",
     "tests nest a few values; misplaced coordinates show only for nested references off the first cell",
     [XL + "_filter.py"], [("runner", "run_filter_elementwise"), ("recursion", "recursive_filter, _recurse_element_func"),
                           ("evaluation", "pyeval_filter, py_filter")], [], "the filtered values and what the element function was given")

prop("C16", "Lassoing runs its stages in order, each on what the previous ones gave",
     "Whatever the reference parses to replaces the context's fields and its options overlay the base ones, which stay unaltered. The sheet "
     "fetched for those fields is captured, exactly the captured rectangle is read, and the filter call gets that result. No captured "
     "cell gives empty values, or the empty-capture error under `no_empty`; any stage's other failure surfaces as a ValueError (syntax "
     "errors as such). A sheets-factory made for the call is closed whatever happens, a given one is left open.",
     IN + ["histories"], "all references, contexts, options, captures and failures of each stage",
     "tests run whole lassos that succeed; precedence of fields and behaviour under failures is hardly sampled",
     [XL + "_lasso.py"], [("stages", "Ranger.do_lasso"), ("parse and merge", "Ranger._parse_and_merge_with_context"),
                          ("capture", "Ranger._resolve_capture_rect"), ("entry and closing", "lasso, make_default_Ranger")], [],
     "the returned lasso, its options and values, and the factory's state")

prop("C17", "A sheets-factory serves each sheet under exactly its ids, closing the displaced",
     "An added or opened sheet is served, without opening it again, under every pair of its own and given workbook-ids with its own and "
     "given sheet-ids, and under no other pair. A sheet displaced from any of its pairs by another one is closed and served no more. "
     "Without workbook-id the base sheet, or its sibling, is served; otherwise the sheet is opened by a highest-bidding backend (none "
     "bidding is a ValueError). Closing closes all the sheets served and forgets them.",
     ["histories", "inputs"], "all histories of adding, fetching and closing, and all ids and bids",
     "tests add and fetch a couple of sheets; aliasing and displacement show only in longer histories",
     [XL + "io/backend.py"], [("cache", "SheetsFactory.add_sheet, fetch_sheet, close"), ("keys", "SheetsFactory._derive_sheet_keys"),
                              ("bids", "SimpleSheetsFactory.decide_backend")], [{"name": "cached sheets", "where": "SheetsFactory._cached_sheets"}],
     "the sheet served and the sheets closed after every operation",
     note="obligations discharged for any ids over fixed shapes of histories (up to 4 operations) and up to 4 backends; longer histories are explored concretely", level="exploration")

prop("C18", "Cells are read as the values they hold, whatever part of a sheet is asked",
     "Reading a rect of a workbook's sheet gives one list of its own for each row asked, with one value for each column asked: None for cells with no "
     "content and for those beyond the sheet's limits, otherwise the cell's own value: texts as they are, whole numbers as ints, other "
     "numbers as floats, booleans, dates as moments in the workbook's own epoch (times alone as times), and NaN for errors; reading a "
     "single cell gives its value. The states of a sheet are true exactly at its cells with content. A sheet is opened by its name, else "
     "by its number; without either, the first one; local and remote workbooks alike.",
     ["cells", "rects", "workbooks"], "all cells, and all positions of a rect over a sheet of any size",
     "tests read a few cells of one workbook, inside its limits",
     [XL + "io/_xlrd.py", XL + "io/backend.py"],
     [("values", "_parse_cell"), ("rects", "XlrdSheet.read_rect, ArraySheet.read_rect"), ("sheets", "_open_sheet_by_name_or_index, XlrdBackend._open_book"),
      ("states", "XlrdSheet._read_states_matrix")], [{"name": "cells of the book", "where": "xlrd.sheet.Sheet"}],
     "the lists read, against the cells of the workbook",
     note="the values of cells and the opening of sheets are proved for any input; rects up to 2x3 anywhere over sheets of any size (larger ones are explored concretely); xlrd itself is trusted")

prop("C19", "A model is the deep merge of its submodels, which stay as they were",
     "Building merges the submodels in the order they were added: mappings merge entry by entry, all the way down; of any other two "
     "values the later one wins, unless it is None (two Nones meeting are refused with a validation error). Series and DataFrames merge "
     "by label and by cell, where missing values never override. Schema defaults fill in only what no submodel gave. The submodels are "
     "left exactly as given, and the model shares no mapping, sequence, array, Series or DataFrame with them: mappings come out as "
     "dicts and sequences as lists.",
     IN, "all trees of submodels",
     "tests merge two shallow trees; lost overrides, leaks of defaults and sharing show only in deeper trees and later changes",
     [PDF], [("merge", "Pandel._clone_and_merge_submodels, _merge"), ("clone", "Pandel._clone_submodel"), ("prevalidation", "Pandel._prevalidate")],
     [{"name": "submodels and model", "where": "Pandel._submodel_tuples, Pandel.model"}],
     "the model built, the submodels afterwards, and the objects they share",
     note="merging and cloning are proved for all trees; pandas objects meeting other branches are merged by pandas and explored concretely, as are whole builds")

prop("C20", "Models are built by error-free steps only, in order; every error surfaces",
     "Building prevalidates each submodel, merges them, validates the result and runs the curate-functions on it, in this order. Every "
     "error a step reports or raises is reported as a validation error, those before it included and in their order; anything else "
     "raised becomes a validation error naming the step, with the original as its cause. After a step with errors building gives up, "
     "says so, and no later step runs. build() raises the first error or returns the model; a later build starts over, and getting a "
     "path from the model is resolving that json-pointer in it.",
     IN + ["histories"], "all submodels, errors and failures of each step, and builds in a row",
     "tests build with a few invalid submodels; failures of merging and curating, and later builds, are not sampled",
     [PDF], [("steps", "Pandel.build_iter"), ("first error", "Pandel.build"), ("validation", "Pandel._validate_json_model, _prevalidate, _validate"),
             ("curation", "Pandel._curate"), ("lookup", "Pandel.get")],
     [{"name": "model being built", "where": "Pandel.model, Pandel._errored"}],
     "the errors reported, the steps run, and the model",
     note="obligations discharged on every path for up to 2 submodels, 2 curate-functions and 2 errors of each; more are explored concretely", level="exploration")

prop("C21", "Pandas and numpy trees validate as the JSON they stand for",
     "Validating a tree with PandelVisitor reports the errors of the JSON tree it stands for, where they are: Series, DataFrames and "
     "mappings are objects, numpy arrays and sequences other than text are arrays, numpy's booleans, integers and floats are booleans, "
     "integers and numbers; None, any NaN, and pandas and numpy objects whose single element is NaN are null. Values of enum and const are "
     "compared by value, where booleans are no numbers. additionalProperties holds for exactly the entries that neither properties nor a "
     "pattern covers. Before the properties are checked, a missing one gets its default when autoDefault is on; a null one that may not "
     "be null gets it when autoDefaultNull is on, or else is removed when autoRemoveNull is on. Settings in the schema win over the "
     "general ones, also when these are off, and nothing else of the tree changes.",
     IN, "all schemas and trees of pandas, numpy and plain values",
     "tests validate a few literals per type; kinds, nulls and the precedence of settings interact in any combination",
     [PDF], [("kinds", "_is_array, _is_object, _is_bool, _is_integer, _is_null"), ("defaults", "_rule_auto_defaults_properties, first_defined, _is_null_in_type"),
             ("rules", "_rule_additionalProperties, _rule_propertyNames, rule_enum, rule_const"), ("visitor", "PandelVisitor")],
     [{"name": "instance", "where": "the tree validated"}],
     "the errors reported, with their paths, and the tree afterwards",
     note="kinds, defaults, enum and const are proved for all values; additionalProperties and propertyNames for up to 3 entries; equality by value and whole validations are explored concretely")

prop("C22", "JSON of the codec restores any picklable object exactly",
     "Dumping an object with JSONCodec.Encoder, by dumps or dump, gives plain JSON, and loading it with JSONCodec.Decoder gives an object "
     "equal to the one dumped, of the same types throughout, whatever texts, line-ends or bytes are in it. Plain JSON loads with the decoder as without it.",
     IN, "all picklable objects", "tests dump a few objects, whose pickles have none of the bytes that text encodings alter",
     [PDF], [("encoder", "JSONCodec.Encoder"), ("decoder", "JSONCodec.Decoder")], [], "the object loaded",
     note="proved for any object given that pickle, binascii and json undo what they do; these are explored concretely")

prop("C23", "Headers with units split into the name and what the brackets enclose",
     "A header is a name without brackets, optionally followed by units enclosed in [] or in <> (and without the closing bracket within), with blanks "
     "allowed around each. It is parsed as the name without the blanks around it, '' when there is none, and the units as written between the brackets, None "
     "without brackets; any other text gives None, and no text at all a TypeError.",
     IN, "all texts", "tests parse a few headers; wrong splits need particular mixtures of blanks and brackets",
     [PDF], [("pattern", "_value_with_units_regex"), ("parser", "parse_value_with_units")], [], "the parsed pair, or None")

prop("C24", "Building components lists exactly the mapped paths they access",
     "Building a component runs its cfunc once, on its own, and lists as inputs (outputs) the mapped paths of the steps accessed through pinp() (pout()): "
     "all of them and nothing else but the paths the cfunc lists itself, by the mappings given to this build, whatever was built before. pinp() and pout() give the same step each time, named "
     "as the component (or by the path first asked for). An assembly builds all its components with the mappings given, and lists their distinct paths, sorted. Calling a component calls its "
     "cfunc with it and the arguments given.",
     IN + ["histories"], "all cfuncs, mappings, and builds one after another",
     "tests build a couple of components once or twice; stale steps and lost paths show in other orders and names",
     ["pandalone/components.py"], [("component", "FuncComponent._build, pinp, pout"), ("assembly", "Assembly._build")],
     [{"name": "inputs and outputs", "where": "Component._inp, Component._out"}], "the paths listed after building",
     note="building is proved for a cfunc asking for steps up to 3 times, with any paths; assemblies and whole builds are explored concretely")

prop("C25", "File names come out unique, with their extension, in folders that exist",
     "make_unique_filename gives the first of the names its generator makes where nothing exists: by default the name itself, then it with 1, 2, 3... "
     "put before its (last) extension. ensure_file_ext leaves a name having one of the extensions given, whether these start with a dot or not and in any "
     "case (all but the first may be regexes of the whole last extension, when told so); another name gets the first extension, with a single dot in "
     "between. When ensure_dir_exists returns there is a folder at the path, made with the mode given unless it was "
     "there, even if others write there at the same time; anything else in the way, or failing to make it, is an OSError.",
     IN + ["schedules"], "all names, extensions, existing files, and what others do to the path in between",
     "tests try a couple of names; partial matches of extensions and races do not show",
     ["pandalone/utils.py"], [("names", "make_unique_filename, generate_filenames"), ("extensions", "ensure_file_ext"), ("folders", "ensure_dir_exists")],
     [{"name": "the path", "where": "the file-system"}], "the name given, and what is at the path",
     note="folders are proved over any interleaving with others; unique names are discharged for up to 6 taken; extensions are explored concretely")

prop("C26", "Texts and objects are read as the booleans they stand for",
     "str2bool takes any text as True but no, false, off, 0 and blank ones, in any case and with any blanks around; what is no text is a ValueError. "
     "obj2bool takes texts the same way, and any other object by its own truth.",
     IN, "all texts and objects", "tests try each word once; letter-case, blanks and other objects are not sampled",
     ["pandalone/utils.py"], [("texts", "str2bool"), ("objects", "obj2bool")], [], "the boolean returned, or the error")
