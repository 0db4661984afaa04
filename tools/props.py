NOTE = """Sound only for the rule stated in the evidence file: a dataflow/typing rule over the resolved program (clang AST of
every non-test translation unit, templates instantiated). Trusts clang's AST, the extractor, the models of the standard
library in vx/absint.py and the frozen tables confirmed by reading. """

SCOPE = """Functions are compared with facts confirmed by reading: a term that static analysis cannot tell apart (numeric coincidences, contents of library calls) is
taken as written; a function which disappears from the program is not decided and is named in the evidence."""

PROPS = [
{"id": "C01", "title": "A clone has the original's concrete type and all of its data",
 "statement": """Cloning any model entity (loading, constraint, value, element set, analysis, ...) yields a distinct object of exactly the
  same concrete kind as the original, with every attribute equal to the original's except the identifiers given to the copy.""",
 "over": ["inputs", "programs"], "quant": "every concrete kind of model entity that can be cloned, every attribute, every value",
 "why": "Unit tests clone a handful of kinds; a new attribute or a new subclass without its own clone operation compiles and passes every test.",
 "files": ["Abstract/Loading.h", "Abstract/Constraint.h", "Abstract/Value.h", "Abstract/ElementSet.h", "Abstract/Analysis.h"],
 "mech": [("clone() per class, copy constructors", "Abstract/*.h")],
 "technique": "provenance dataflow over clone/copy operations + class hierarchy exhaustiveness",
 "note": NOTE + "Decides the whole statement for the classes in the tree; deep sharing through shared pointers is C02's subject."},
{"id": "C02", "title": "Scaling multiplies each magnitude exactly once by the factor",
 "statement": """Scaling a loading, an imposed displacement or a value by a factor multiplies each of its magnitudes exactly once by that factor and changes
  nothing else; a kind which cannot be scaled refuses with an error instead of silently keeping its magnitude. Scaling one object never changes data
  shared with another one.""",
 "over": ["inputs", "programs"], "quant": "every scalable kind, every factor, every number of components",
 "why": "Tests scale a few kinds with one component; multiplicity per component, forgotten components and shared data need other inputs.",
 "files": ["Abstract/Loading.cpp", "Abstract/Loading.h", "Abstract/Value.cpp", "Abstract/Value.h", "Abstract/Constraint.cpp"],
 "mech": [("scale(double) overrides", "Abstract/Loading.cpp, Abstract/Value.h"), ("callers combining loads", "Abstract/Model.cpp, Nastran/NastranParser.cpp")],
 "technique": "provenance dataflow (exponent of the factor in every stored attribute), ownership of what is modified",
 "note": NOTE + "The table of magnitudes per class is frozen in the checker."},
{"id": "C03", "title": "Every field of a Nastran bulk-data card reaches the right model attribute",
 "statement": """For every supported bulk-data card, each field is read with the right position, kind (integer, real, text) and default, with
  the right number of fields skipped, and ends up in the right attribute of the right entity (materials, properties, cells, loads,
  constraints, coordinate systems, sets), under the conditions the card's definition gives; no field is swapped with another one, sign
  changed, scaled, or dropped, also in repeated groups, continuation lines and rarely used variants of a card.""",
 "over": ["inputs"], "quant": "every supported card, every field, every variant of the card",
 "why": "The tests translate sample decks and mostly check that translation succeeds; most fields of most cards never influence an assertion.",
 "files": ["Nastran/NastranParser.cpp", "Nastran/NastranParser_geometry.cpp", "Optistruct/OptistructParser.cpp"],
 "mech": [("card handlers dispatched by keyword", "Nastran/NastranParser.cpp parse*()")],
 "technique": "provenance dataflow: card cursor positions, kinds, defaults and path conditions traced into every attribute and model call",
 "note": NOTE + "Each handler is compared with a table of facts confirmed by reading the handlers; positions after the first unknown-length group are relative."},
{"id": "C16", "title": "What a bulk-data card asks for and is not supported is reported",
 "statement": """A field value, option or combination of a bulk-data card which the reader does not support or ignores is always reported by a warning or
  an error (which stops a strict translation); it is never dropped silently, and a supported one is not reported.""",
 "over": ["inputs"], "quant": "every supported card, every value of its fields",
 "why": "The tests hold a few unsupported values; every other silent drop needs another input.",
 "files": ["Nastran/NastranParser.cpp", "Nastran/NastranParser_geometry.cpp", "Abstract/SolverInterfaces.cpp"],
 "mech": [("handleParsingWarning / handleParsingError call sites", "Nastran/NastranParser*.cpp")],
 "technique": "path-condition dataflow: the exact conditions under which each report is reached, per card",
 "note": NOTE + "The text of the reports is not judged."},

{"id": "C04", "title": "The Code_Aster command file says exactly what the model says",
 "statement": """Each keyword of the Code_Aster command file (materials, element characteristics, loads, imposed displacements and linear relations,
  contact zones, analyses, result requests, value assertions) carries the value, sign, group, node, degree of freedom and reference that the model
  holds for it. A part of the model is written exactly when the model asks for it, in the syntax that keyword takes (separators, closing brackets,
  one value per component).""",
 "over": ["inputs"], "quant": "every model that can be built, every kind of loading, constraint, element set, material nature and analysis",
 "why": "The writer tests compare nothing or a few words of a few command files; most branches (complex loads, composite layers, gaps, optional keywords) are written by no test.",
 "files": ["Aster/AsterWriter.cpp", "Aster/AsterModel.cpp"],
 "mech": [("write*() per section of the command file", "Aster/AsterWriter.cpp"), ("naming of concepts", "Aster/AsterModel.cpp")],
 "technique": "provenance dataflow with path conditions: every written keyword, separator and value traced back to model data", "note": NOTE + SCOPE},
{"id": "C05", "title": "The Nastran writer puts each model datum in its card field",
 "statement": """Every card written for a model (grid points, elements, properties, materials, loads, constraints, executive and case control sections)
  has each model datum in the right field, with the card's own field order and blanks, and is written exactly when the model holds that entity.""",
 "over": ["inputs"], "quant": "every model, every card that the writer knows",
 "why": "The tests write a few decks and do not compare their fields.",
 "files": ["Nastran/NastranWriter.cpp"],
 "mech": [("Line::add / Line::skip and write*() per card family", "Nastran/NastranWriter.cpp")],
 "technique": "provenance dataflow with path conditions; typestate of the card's next field", "note": NOTE + SCOPE},
{"id": "C06", "title": "The Systus files carry the model's data at the right place and code",
 "statement": """Each record of the Systus ASC and DAT files (nodes, elements, materials, loads, constraints, groups, lists, vectors, matrices, solving
  instructions) carries the model's data in the place and with the code that the format gives to it, and is written exactly when the model asks for it.""",
 "over": ["inputs"], "quant": "every model, every kind of element, material, loading and constraint that can be written for Systus",
 "why": "The Systus tests mostly check that a translation ends; numeric codes, counts and offsets of records are not asserted.",
 "files": ["Systus/SystusWriter.cpp"],
 "mech": [("fill*() tables, then write*() per section", "Systus/SystusWriter.cpp")],
 "technique": "provenance dataflow with path conditions over the tables filled and the records written", "note": NOTE + SCOPE},
{"id": "C07", "title": "Each command-line or configuration option has exactly its own effect",
 "statement": """Each command line option and each configuration file entry sets the translation parameter it is documented for, with its own default and
  its own accepted values, and changes nothing else. A missing or unknown value, option, input file or solver is refused with the matching exit
  code; a failing step of the run is returned as the exit code of that step.""",
 "over": ["inputs", "configurations"], "quant": "every combination of options, option values and files",
 "why": "The tests run a few command lines; defaults, refusals and combinations of options are not enumerated.",
 "files": ["Commandline/VegaCommandLine.cpp", "Commandline/vegamain.cpp", "Abstract/ConfigurationParameters.cpp"],
 "mech": [("option tables and readCommandLineParameters()", "Commandline/VegaCommandLine.cpp"), ("process()", "Commandline/VegaCommandLine.cpp")],
 "technique": "provenance dataflow with path conditions from each option to each parameter, call and exit code", "note": NOTE + SCOPE},
{"id": "C08", "title": "A solver run is reported as what it was",
 "statement": """Running a solver on a translated study uses the study's own files and working directory and the configured solver, and reports a
  success only when the solver ended normally: each failure (solver not found, abnormal exit, failed assertion, error marker in the message
  file) is reported as that failure.""",
 "over": ["inputs", "fault_sequences"], "quant": "every exit status, every content of the message file, every configured solver",
 "why": "No solver is installed where the tests run, so none of the outcomes is ever produced.",
 "files": ["Aster/AsterRunner.cpp", "Systus/SystusRunner.cpp", "Nastran/NastranRunner.cpp"],
 "mech": [("execSolver()", "*/…Runner.cpp")],
 "technique": "path-condition dataflow: conditions under which each outcome is returned, and data of the command executed", "note": NOTE + SCOPE},
{"id": "C09", "title": "The model's finishing passes rewrite exactly what they have to",
 "statement": """Each rewriting pass applied to a model before it is written (virtual materials, splitting of element sets, emulation of masses,
  local displacements and rigid bodies, cells generated for constraints, redundant constraints removed, combined load sets, surfaces of
  boundaries, default analyses) applies to exactly the entities which need it, in its own place of the sequence, and builds the replacing
  entities from the data of the replaced ones.""",
 "over": ["inputs", "histories"], "quant": "every model, every combination of options enabling the passes",
 "why": "The tests exercise a few passes on one model each; the guards of a pass and the order of passes are seen only on models that combine several features.",
 "files": ["Abstract/Model.cpp", "Abstract/Model.h"],
 "mech": [("Model::finish() and its passes", "Abstract/Model.cpp")],
 "technique": "provenance dataflow with path conditions; order of effects; container updates traced", "note": NOTE + SCOPE},
{"id": "C10", "title": "Validation and effectiveness verdicts are given on exactly the right entities",
 "statement": """The validation of a model accepts an entity exactly when its data and everything it refers to are usable, the validation of a container
  is that of each of its entities, and an entity is called ineffective (and so may be removed) only when it has no effect. An entity is reported as
  not translated exactly when it was not written.""",
 "over": ["inputs"], "quant": "every kind of entity, every value of its attributes",
 "why": "The tests validate correct models; a verdict that is wrong for one kind or one value is not seen.",
 "files": ["Abstract/Model.cpp", "Abstract/Loading.cpp", "Abstract/Constraint.cpp", "Abstract/Analysis.cpp", "Abstract/Element.cpp"],
 "mech": [("validate() / ineffective() / checkWritten()", "Abstract/*")],
 "technique": "path-condition dataflow: the exact conditions of every verdict", "note": NOTE + SCOPE},
{"id": "C13", "title": "Cells, cell types and groups answer with exactly their own members",
 "statement": """The topology of each cell type (number of nodes, faces, order of the nodes of a face, code) is that of the element it stands for. Containers of
  nodes and cells (groups, explicit members, exclusion of groups) answer with exactly the members put in them, each by its own id or position,
  and removal removes exactly the given member.""",
 "over": ["inputs", "histories"], "quant": "every cell type, face, group and history of additions and removals",
 "why": "The tests check a few faces of a few cell types and simple groups.",
 "files": ["Abstract/MeshComponents.cpp", "Abstract/MeshComponents.h"],
 "mech": [("CellType and face tables", "Abstract/MeshComponents.cpp"), ("CellContainer / NodeContainer", "Abstract/MeshComponents.cpp")],
 "technique": "constant-table comparison and provenance dataflow over container updates and answers", "note": NOTE + SCOPE},
{"id": "C15", "title": "The MED file receives exactly the mesh",
 "statement": """The mesh file for Code_Aster is given every node with its coordinates, every cell with its connectivity in the file format's node order, and
  every group as a family holding exactly its members, each under its own name and cell type.""",
 "over": ["inputs"], "quant": "every mesh, every cell type, every combination of groups",
 "why": "No test reads the written mesh back; families and node orders are not asserted.",
 "files": ["Aster/MedWriter.cpp"],
 "mech": [("writeMED(), families and connectivity", "Aster/MedWriter.cpp")],
 "technique": "provenance dataflow with path conditions into every argument of the MED library calls", "note": NOTE + SCOPE},
{"id": "C17", "title": "An error stops a strict translation and is never lost otherwise",
 "statement": """An error or warning found while reading or writing carries where it comes from (file, line, keyword); in the strict mode it stops the
  translation, in the best-effort modes it is reported and the translation goes on, dropping what the mode says. An error is never turned into a
  silent success.""",
 "over": ["inputs", "configurations"], "quant": "every report, every translation mode",
 "why": "The tests use correct decks, mostly in one mode.",
 "files": ["Abstract/SolverInterfaces.cpp", "Abstract/SolverInterfaces.h"],
 "mech": [("handleParsingError / handleWritingError", "Abstract/SolverInterfaces.cpp")],
 "technique": "path-condition dataflow: the mode under which each exception is raised, and data of each report", "note": NOTE + SCOPE},
{"id": "C18", "title": "Mesh lookups and insertions keep ids, positions and groups consistent",
 "statement": """A node, cell, orientation or group added to the mesh is found again under the id, name or position it was added with, holding the data given; reserved
  nodes get their data when they are defined; adding, renaming, updating or removing one member changes no other member, and counts and
  statistics agree with what was added.""",
 "over": ["inputs", "histories"], "quant": "every sequence of additions, lookups, renamings and removals",
 "why": "The tests build small meshes in one order.",
 "files": ["Abstract/Mesh.cpp", "Abstract/Mesh.h"],
 "mech": [("Mesh, NodeStorage, CellStorage", "Abstract/Mesh.cpp")],
 "technique": "provenance dataflow over container updates with path conditions", "note": NOTE + SCOPE},
{"id": "C19", "title": "Model containers find an entity exactly by its own identifiers",
 "statement": """An entity added to the model is found again by its reference, by its id and by its original id together with its type, and is not found by those of another
  one. References are equal exactly when they designate the same entity; iteration and filtering by type give exactly the entities of that type; erasing
  an entity removes it from every index.""",
 "over": ["inputs", "histories"], "quant": "every sequence of additions, lookups and removals, every mixture of original and generated ids",
 "why": "The tests look up a few entities; collisions between original and generated ids and types need particular histories.",
 "files": ["Abstract/Model.h", "Abstract/Reference.h", "Abstract/Object.h"],
 "mech": [("Container<T>, Reference<T>, Identifiable<T>", "Abstract/Model.h, Abstract/Reference.h, Abstract/Object.h")],
 "technique": "provenance dataflow with path conditions over template instantiations", "note": NOTE + SCOPE},
{"id": "C21", "title": "Degree-of-freedom sets, vectors and matrices obey their algebra",
 "statement": """Union, difference, intersection, membership, size, iteration and Nastran codes of sets of degrees of freedom are those of sets; vectors of coefficients
  combine component by component; a matrix of degrees of freedom gives back each component where it was put, with symmetry, transposition, diagonal and
  vector forms in the documented order.""",
 "over": ["inputs"], "quant": "every set, code and matrix",
 "why": "The tests sample a few of the 64 sets, of the codes and of the matrices.",
 "files": ["Abstract/Dof.cpp", "Abstract/Dof.h"],
 "mech": [("DOF, DOFS, DOFCoefs, DOFMatrix", "Abstract/Dof.cpp")],
 "technique": "term-level dataflow with path conditions over every operation", "note": NOTE + SCOPE},
{"id": "C25", "title": "Constraints hold and answer exactly the relations they stand for",
 "statement": """A constraint (imposed values, linear relations, rigid and quasi-rigid bodies, gaps, contacts) gives, for each of its nodes, exactly the degrees of freedom, coefficients and values
  put in it; removing a node or degree of freedom removes exactly that one, and rewriting it as other constraints keeps the relation it
  imposes (signs, lever arms, coefficients).""",
 "over": ["inputs", "histories"], "quant": "every kind of constraint, every node, degree of freedom and coefficient",
 "why": "The tests build a few constraints with one or two nodes.",
 "files": ["Abstract/Constraint.cpp", "Abstract/Constraint.h"],
 "mech": [("Constraint hierarchy, ConstraintSet", "Abstract/Constraint.cpp")],
 "technique": "provenance dataflow with path conditions over every stored and answered value", "note": NOTE + SCOPE},
{"id": "C29", "title": "Each reference result read becomes the assertion it stands for",
 "statement": """Each value of a reference result file (displacements, complex displacements, eigenvalues, stresses, comma-separated values) which is read becomes an assertion on the same
  node or cell, component, instant, frequency or mode, subcase and value, with the configured tolerance.""",
 "over": ["inputs"], "quant": "every result file, every section and line of it",
 "why": "The tests read a few small files and check a few assertions.",
 "files": ["ResultReaders/F06Parser.cpp", "ResultReaders/CSVResultReader.cpp", "ResultReaders/ResultReadersFacade.cpp"],
 "mech": [("read*Section() / add*AssertionsToModel()", "ResultReaders/F06Parser.cpp")],
 "technique": "provenance dataflow with path conditions from file tokens to assertions", "note": NOTE + SCOPE},
{"id": "C30", "title": "Coordinate systems convert positions and vectors exactly by definition",
 "statement": """A cartesian, cylindrical, spherical or orientation coordinate system built from its origin and points has the axes its definition gives; conversions of
  positions and vectors to and from the global system and its angles follow from these axes, and a system is found again by its id, position or definition.""",
 "over": ["inputs"], "quant": "every definition, point and vector, including degenerate ones",
 "why": "The tests convert a few points in a few systems.",
 "files": ["Abstract/CoordinateSystem.cpp", "Abstract/CoordinateSystem.h"],
 "mech": [("build(), vectorToGlobal(), positionToGlobal(), updateLocalBase()", "Abstract/CoordinateSystem.cpp")],
 "technique": "term-level dataflow with path conditions over every formula (operands, signs, order of non-commutative operations)", "note": NOTE + SCOPE},
{"id": "C31", "title": "Nastran sections, fields, parameters and subcases are read as written",
 "statement": """Lines of a Nastran or Optistruct deck are cut into fields by the format each line uses (free, short, long, continuation, comments, include), numbers are read in every Nastran notation
  with the card's default when blank, and executive, case control and parameter entries (including subcases, sets and combinations) reach the analysis, parameter or set
  they define, in the scope of their subcase.""",
 "over": ["inputs"], "quant": "every layout of a line, every notation of a number, every nesting of case control entries",
 "why": "The tests read sample decks; mixtures of formats and case control entries are not enumerated.",
 "files": ["Nastran/NastranTokenizer.cpp", "Nastran/NastranParser.cpp", "Nastran/NastranParser_param.cpp", "Optistruct/OptistructParser.cpp"],
 "mech": [("NastranTokenizer", "Nastran/NastranTokenizer.cpp"), ("parseExecutiveSection(), addAnalysis(), parseSubcase(), parsePARAM()", "Nastran/NastranParser*.cpp")],
 "technique": "provenance dataflow with path conditions; dispatch tables compared entry by entry", "note": NOTE + SCOPE},
{"id": "C32", "title": "Element sets answer with the section constants of their own section",
 "statement": """Areas, inertias, shear factors, thicknesses, offsets, layers, orientations, masses, stiffnesses and dampings answered by an element set follow from the data given
  for its own section or matrix, for the degrees of freedom and nodes asked for; its kind (beam, truss, shell, composite, discrete) is that of its data.""",
 "over": ["inputs"], "quant": "every kind of element set and section, every dimension",
 "why": "The tests check a few sections; most formulas are evaluated on no test.",
 "files": ["Abstract/Element.cpp", "Abstract/Element.h"],
 "mech": [("ElementSet hierarchy", "Abstract/Element.cpp")],
 "technique": "term-level dataflow with path conditions over every formula and answer", "note": NOTE + SCOPE},
{"id": "C33", "title": "Materials hold and answer exactly the constants given to them",
 "statement": """A material nature answers each constant (moduli, Poisson coefficients, density, expansion, reference temperature, hyperelastic, orthotropic and non-linear
  data) with the value given for it, derives the missing one of a related set from the given ones, and a material finds each of its natures by its own kind.""",
 "over": ["inputs"], "quant": "every nature, every subset of constants given",
 "why": "The tests hold a few materials with all constants given.",
 "files": ["Abstract/Material.cpp", "Abstract/Material.h"],
 "mech": [("Nature hierarchy, Material", "Abstract/Material.cpp")],
 "technique": "term-level dataflow with path conditions", "note": NOTE + SCOPE},
{"id": "C34", "title": "Analyses and objectives hold exactly what was attached to them",
 "statement": """An analysis answers exactly the load sets, constraint sets, objectives, parameters and boundary degrees of freedom attached to it and to the model in common, each once and by kind; it can be
  reused by another one only when their data agree. Objectives (assertions, frequency searches, dampings, outputs) answer the data given to them, of the analysis they belong to.""",
 "over": ["inputs", "histories"], "quant": "every kind of analysis and objective, every history of attachments",
 "why": "The tests attach one or two sets to an analysis.",
 "files": ["Abstract/Analysis.cpp", "Abstract/Analysis.h", "Abstract/Objective.cpp", "Abstract/Objective.h"],
 "mech": [("Analysis and Objective hierarchies", "Abstract/Analysis.cpp, Abstract/Objective.cpp")],
 "technique": "provenance dataflow with path conditions", "note": NOTE + SCOPE},
{"id": "C35", "title": "Loadings answer exactly the loads they stand for",
 "statement": """A loading answers, for each node or cell it is applied to, the force, moment, pressure, acceleration or excitation given to it, along the direction its definition gives (components, nodes, coordinate
  system), on the face it is applied to, and tells correctly which degrees of freedom it acts on and whether it depends on functions.""",
 "over": ["inputs"], "quant": "every kind of loading, every coordinate system and face",
 "why": "The tests build a few loadings.",
 "files": ["Abstract/Loading.cpp", "Abstract/Loading.h", "Abstract/BoundaryCondition.cpp"],
 "mech": [("Loading hierarchy, LoadSet", "Abstract/Loading.cpp")],
 "technique": "term-level dataflow with path conditions", "note": NOTE + SCOPE},
{"id": "C36", "title": "Values, ranges and functions hold and answer exactly their own data",
 "statement": """A value (step range, spread range, list, set, function table, tabulated function) holds the bounds, counts, points, interpolations and extrapolations given to it, and its start, step, end, count, inversion and
  evaluation follow from them.""",
 "over": ["inputs"], "quant": "every kind of value, every data",
 "why": "The tests check a few ranges.",
 "files": ["Abstract/Value.cpp", "Abstract/Value.h"],
 "mech": [("NamedValue hierarchy", "Abstract/Value.cpp")],
 "technique": "term-level dataflow with path conditions", "note": NOTE + SCOPE},
{"id": "C37", "title": "Targets and numeric helpers compute exactly what they are named for",
 "statement": """Targets (boundary nodes, lines, surfaces, element faces, contact bodies) hold the nodes and faces given to them and create the skin cells of exactly these faces; comparison of numbers with a tolerance, the unset-value
  test, number formatting and matrix inversion give what their definition says for every argument.""",
 "over": ["inputs"], "quant": "every face, number and precision",
 "why": "The tests sample a few arguments.",
 "files": ["Abstract/Target.cpp", "Abstract/Target.h", "Abstract/Utility.cpp", "Abstract/Utility.h"],
 "mech": [("Target hierarchy", "Abstract/Target.cpp"), ("is_equal(), is_zero(), InvertMatrix()", "Abstract/Utility.*")],
 "technique": "term-level dataflow with path conditions", "note": NOTE + SCOPE},
{"id": "C11", "title": "The output is determined by the input files and options alone",
 "statement": """Translating the same study with the same options writes the same files each time: nothing written, and no order in which anything is written or numbered, depends on
  memory addresses, on hashes of addresses, on the clock (except the date in a file header), on the process or on random numbers. Containers keyed by a pointer are never traversed to produce
  output, pointers are never compared by order nor written.""",
 "over": ["schedules", "inputs"], "quant": "every run (every layout of memory, every moment) of every study",
 "why": "A test process runs with one memory layout; an address-ordered traversal gives the expected order there and another one elsewhere.",
 "files": ["Abstract/Model.cpp", "Abstract/Element.cpp", "Nastran/NastranWriter.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp"],
 "mech": [("containers of references, ptrLess ordering", "Abstract/Model.h"), ("getMaterials(), generated group comments", "Abstract/Element.cpp, Abstract/Mesh.cpp")],
 "technique": "type and call-graph rules: traversal order of every container, order comparisons, nondeterministic sources, conversions of addresses to text",
 "note": NOTE + "Decides address, clock and random dependence; reading uninitialised memory is C12's subject."},
{"id": "C12", "title": "Nothing is read before it has been given a value",
 "statement": """Every attribute of every entity has a value as soon as the entity is constructed, and every local variable has been assigned on every path that reaches a use of it (also when a loop
  runs zero times, a switch matches no case, or an optional field is missing).""",
 "over": ["inputs", "programs"], "quant": "every class, every constructor, every path of every function",
 "why": "An uninitialised value is often zero in a test process, and the paths without an assignment are the ones no test takes.",
 "files": ["Abstract/*.cpp", "Nastran/NastranParser.cpp", "Systus/SystusWriter.cpp", "Systus/SystusDat.cpp"],
 "mech": [("member initialisers of every class", "Abstract/*.h"), ("locals assigned in branches", "Systus/SystusDat.cpp, Systus/SystusRunner.cpp")],
 "technique": "definite-assignment dataflow over every function; initialisation completeness of every class",
 "note": NOTE + "Loops may run zero times; a call with an out-parameter counts as an assignment."},
{"id": "C24", "title": "Identifiers and positions of nodes and cells are never confused",
 "statement": """A node or a cell has an identifier (from the input deck, sparse) and a position (dense, zero based, internal). Wherever the program stores, compares, passes or answers one of them, it is
  the one that place is meant for: an identifier is never used as a position, a position never as an identifier, and a number of a node never as a number of a cell or of a coordinate system.""",
 "over": ["inputs"], "quant": "every mesh numbering, every function handling node or cell numbers",
 "why": "The test meshes are numbered 1, 2, 3 ... so that identifiers and positions coincide up to a constant; sparse numberings are not tested.",
 "files": ["Abstract/Mesh.cpp", "Abstract/MeshComponents.cpp", "Abstract/Constraint.cpp", "Nastran/NastranWriter.cpp", "Systus/SystusWriter.cpp", "Aster/AsterWriter.cpp"],
 "mech": [("findNodePosition/findNode, findCellPosition/findCell", "Abstract/Mesh.cpp"), ("master/slave positions of constraints", "Abstract/Constraint.cpp")],
 "technique": "unit inference: numbering of every integer from signatures, fields and dataflow, checked at every call, store, comparison and return",
 "note": NOTE + "Numbers whose numbering cannot be inferred are not judged."},
{"id": "C28", "title": "A container is never changed under a running traversal of it",
 "statement": """While a container is traversed (or an iterator, reference or pointer into it is in use), nothing reachable from the loop body inserts into or erases from that container in a
  way that invalidates the traversal, unless the traversal is left or restarted from the result of the change.""",
 "over": ["inputs", "programs"], "quant": "every loop over a container, every call reachable from its body",
 "why": "An invalidated iterator usually still works on the small containers of the tests.",
 "files": ["Abstract/Model.cpp", "Abstract/Model.h", "Abstract/Mesh.cpp", "Nastran/NastranParser.cpp"],
 "mech": [("finishing passes adding to and removing from containers", "Abstract/Model.cpp")],
 "technique": "effect analysis: access paths changed by each function (transitively) against the access path that is traversed",
 "note": NOTE + "Two different access paths are taken for different containers unless one is a local reference to the other."},
{"id": "C39", "title": "The result of a lookup is used only after it was found",
 "statement": """An iterator answered by a lookup (find, lower_bound, max_element, ...) is dereferenced only where it has been compared with the end of that container; a table looked up without such a comparison
  has an entry for every enumerator it can be asked for; a pointer which a function may answer null (nothing has that id, name, type or reference) is dereferenced, or put in a
  container, only where it was tested or where the object was found valid; the first or last element of a container is taken only where the container is known to hold one.""",
 "over": ["inputs", "programs"], "quant": "every lookup in every function, every enumerator",
 "why": "The tests look up what exists; a missing entry needs another input.",
 "files": ["Abstract/Model.cpp", "Abstract/Mesh.cpp", "Aster/AsterModel.h", "Nastran/NastranParser_geometry.cpp", "Systus/SystusWriter.cpp"],
 "mech": [("find() followed by ->second", "all modules"), ("constant tables by enumerator", "Aster/AsterModel.h, Abstract/*.cpp")],
 "technique": "must-dataflow of lookup results (iterators, nullable pointers with interprocedural summaries, first elements), what validate() establishes, totality of constant tables",
 "note": NOTE + "A test made on an equivalent condition in another function is followed for helpers of one call level only."},
{"id": "C20", "title": "Every loop moves on towards its end in each of its iterations",
 "statement": """Along every path through the body of a loop, the data its end depends on moves on: a field or line of the input is consumed, an iterator or counter is stepped exactly towards its bound
  (never away from it, never left as it is on a continue or in a branch), an emptied work list shrinks. A function calls itself only with data which is strictly further on.""",
 "over": ["inputs", "programs"], "quant": "every loop and every recursion of the program, every path through its body",
 "why": "A path without progress hangs the translation for the one input which takes it; the tests never take it, or they would not end.",
 "files": ["Nastran/NastranParser.cpp", "Nastran/NastranTokenizer.cpp", "Nastran/F06Parser.cpp", "Abstract/Model.cpp", "Abstract/Mesh.cpp", "Systus/SystusWriter.cpp"],
 "mech": [("loops over the fields of a card, over the lines of a file", "Nastran/*.cpp"), ("counted loops and iterator loops", "all modules")],
 "technique": "progress dataflow per loop: must-advance of the variables of the condition on every path to the next iteration; direction of steps against bounds",
 "note": NOTE + "How many iterations a loop takes, and the size of its bound, are not judged (C41)."},
{"id": "C23", "title": "An error raised anywhere reaches a handler made for it",
 "statement": """Every exception the program can raise, directly or in a library call, reaches a handler that is made for its type before it can end the process unexpectedly; it does not leave a function
  that promises not to throw; no handler is hidden by one before it, copies away the concrete error, or drops it without a word; the text of the error is really built from what it names.""",
 "over": ["inputs", "programs"], "quant": "every throw, every throwing library call, every path of calls to main, every handler",
 "why": "Which handler an error meets depends on where in the call graph it is raised; the tests raise a handful of errors, in direct calls.",
 "files": ["Commandline/VegaCommandLine.cpp", "Nastran/NastranParser.cpp", "Nastran/NastranTokenizer.cpp", "Abstract/SolverInterfaces.cpp", "Abstract/Dof.cpp"],
 "mech": [("throw sites of all modules", "*.cpp"), ("handlers of the command line and parsers", "Commandline/VegaCommandLine.cpp, Nastran/*.cpp")],
 "technique": "escape analysis: types of exceptions that leave each function, through the call graph with virtual dispatch and handlers; typestate of handlers",
 "note": NOTE + "Allocation failures are left out; errors of library functions are those of the table in vx/escape.py."},
{"id": "C22", "title": "Every alternative the program distinguishes can be taken",
 "statement": """Whatever the input, no test of the program is already decided when it is reached: the text a card or option is compared with is one it can have, each kind, keyword and option that is
  distinguished is produced by something, a flag which is tested is set somewhere on a path to its test, no branch repeats or contradicts what an enclosing or preceding one established.""",
 "over": ["inputs", "programs"], "quant": "every condition, case label and distinguished keyword of the program, under everything established where it is reached",
 "why": "A test which can have only one outcome means a behaviour the program announces and never has; no test can show the absence of an outcome.",
 "files": ["Nastran/NastranParser.cpp", "Commandline/VegaCommandLine.cpp", "Abstract/Model.cpp", "Abstract/SolverInterfaces.cpp", "Systus/SystusWriter.cpp", "Aster/AsterWriter.cpp"],
 "mech": [("conditions of all functions", "*.cpp"), ("kinds and keywords the writers distinguish", "Aster, Systus, Nastran writers")],
 "technique": "dataflow of established facts (conditions, constants, lengths and prefixes of texts) to every condition; producers of every kind that is tested",
 "note": NOTE + "Conditions over values computed by arithmetic are not judged."},
{"id": "C27", "title": "A file that cannot be written, or a mesh operation that fails, is noticed",
 "statement": """Nothing is written into an output file before it is known to be open: when it cannot be opened the translation ends with an error. Once all is written, the file is closed and a failure on the way (disk full)
  is an error too, not a truncated file. The result of every operation which writes the MED mesh is
  examined, and its failure ends the translation with an error rather than with an incomplete mesh.""",
 "over": ["inputs", "schedules"], "quant": "every output file and every MED operation, on every path which uses it",
 "why": "Failures of files (rights, space, names) do not occur in the tests; each operation has its own path.",
 "files": ["Aster/AsterWriter.cpp", "Aster/MedWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp", "Abstract/SolverInterfaces.cpp"],
 "mech": [("output streams opened by the writers", "Aster/AsterWriter.cpp, Systus/SystusWriter.cpp, Nastran/NastranWriter.cpp"), ("MED calls", "Aster/MedWriter.cpp")],
 "technique": "typestate: an output stream is opened, then tested, then written, then closed and tested again; result of each MED call must reach a test that leaves with an error",
 "note": NOTE + "Unreadable input files are not judged."},
{"id": "C38", "title": "Every kind of object is dealt with, as what it is",
 "statement": """Where the program distinguishes the kind of a cell, constraint, loading, element set, coordinate system, ..., no kind falls into the treatment of another by accident or gets no answer at all, an
  object is treated as a class only where its kind says it is of that class, each class reports the kind that is its own, and no two kinds have the same name.""",
 "over": ["inputs", "programs"], "quant": "every distinction by kind, every conversion to a derived class, every kind and class",
 "why": "The wrong treatment of a kind is undefined behaviour or silently wrong output, for models which hold that kind in that place; the tests hold a few.",
 "files": ["Abstract/CoordinateSystem.cpp", "Systus/SystusWriter.cpp", "Aster/AsterWriter.cpp", "Nastran/NastranWriter.cpp", "Abstract/Model.cpp", "Abstract/Element.cpp", "Abstract/Constraint.cpp"],
 "mech": [("static_pointer_cast and switch over kinds", "all modules"), ("kind passed by each constructor", "Abstract/*.cpp")],
 "technique": "kinds a constructor can give (constant propagation through base initialisers) against the kinds established where an object is cast; fall-through and totality of switches",
 "note": NOTE + "Objects whose kind is held in another object are not judged."},
{"id": "C26", "title": "The conventions about a cell's nodes agree wherever they are stated",
 "statement": """Every cell type has the number of nodes, the dimension and the name its definition says. The faces of a cell enclose it: each edge is shared by two faces which run it in opposite directions, all faces
  point outwards, and a quadratic face has the middle nodes of its own edges. The corner nodes are those of the linear cell. The node order with which a reader takes a Nastran cell to the model, and with which each
  writer takes the model's cell to Nastran or Systus, is a permutation of its nodes that keeps the cell valid (corners to corners, orientation kept, each middle node on its own edge), so that reading then writing Nastran gives the same cell.""",
 "over": ["inputs", "programs"], "quant": "every cell type, and every face and node of it, in every table",
 "why": "A wrong entry gives a cell that is inside out, or whose middle node is at the wrong edge, for one type of cell of one solver; the tests convert a few types.",
 "files": ["Abstract/MeshComponents.cpp", "Nastran/NastranParser.cpp", "Nastran/NastranWriter.cpp", "Systus/SystusWriter.cpp"],
 "mech": [("cell types, faces, corners", "Abstract/MeshComponents.cpp"), ("node orders", "Nastran/NastranParser.cpp, Nastran/NastranWriter.cpp, Systus/SystusWriter.cpp")],
 "technique": "constant evaluation of the initialisers of the tables of the program; algebra of the folded tables (orientation of faces, permutations, edges) against the conventions of MED, Nastran and Systus",
 "note": NOTE + "Only the tables are judged, and that they are the ones used is C02, C03, C05 and C06."},
{"id": "C40", "title": "A translated study solves to the same physical results in the target solver",
 "statement": """Solving the translated study with the target solver gives the displacements, modes, frequencies and stresses of the original study within the solvers' accuracy.""",
 "over": ["inputs"], "quant": "every study",
 "why": "No solver is installed; the tests compare nothing.",
 "files": ["Commandline/VegaCommandLine.cpp"], "mech": [("whole translation", "Commandline/VegaCommandLine.cpp")],
 "na": "The oracle is the numerical behaviour of two external solvers that are not in the repository; no rule over vega's source bounds it. C03-C06 decide the data path, which is the part vega implements."},
{"id": "C41", "title": "Translation ends on every input, in time proportionate to its size",
 "statement": """Reading, finishing and writing end on every input file, however malformed, using time and memory proportionate to its size.""",
 "over": ["inputs"], "quant": "every input file",
 "why": "Tests hold small correct inputs.",
 "files": ["Nastran/NastranTokenizer.cpp", "Abstract/Model.cpp"], "mech": [("token and subcase loops", "Nastran/NastranParser.cpp")],
 "na": "Loops are driven by the content of the input, by iterators of containers that grow meanwhile and by the MED library; a ranking argument would need the contents (runtime quantities) that no rule over the source bounds."},
{"id": "C42", "title": "The MED file can be read back to the same mesh by any MED reader",
 "statement": """Reading the written mesh file with the MED library gives the same nodes, cells and groups.""",
 "over": ["inputs"], "quant": "every mesh",
 "why": "No test reads a MED file back.",
 "files": ["Aster/MedWriter.cpp"], "mech": [("MED library calls", "Aster/MedWriter.cpp")],
 "na": "What the MED/HDF5 library stores is decided by code outside the repository (binary, no source here). C15 decides what is handed to it."},
{"id": "C43", "title": "Formatted numbers keep the accuracy that the target solver needs",
 "statement": """Every number written in a fixed-width field or a text file denotes the model's value within the accuracy of the field.""",
 "over": ["inputs"], "quant": "every double",
 "why": "Tests write round numbers.",
 "files": ["Nastran/NastranWriter.cpp", "Systus/SystusWriter.cpp"], "mech": [("Line::add(double), stream precision", "Nastran/NastranWriter.cpp")],
 "na": "Depends on the runtime magnitude of the value and the C library's formatting; no source rule bounds the rounding. The precision settings themselves are compared by C04-C06."},
]
