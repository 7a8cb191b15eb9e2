#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts are maintained here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe or [], "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)

PARSER = "oelint_parser/parser.py"; STASH = "oelint_parser/cls_stash.py"; ITEM = "oelint_parser/cls_item.py"
INL = "oelint_parser/inlinerep.py"; RPL = "oelint_parser/rpl_regex.py"; CON = "oelint_parser/constants.py"

prop("C01", "Parsing a file is lossless: no text lost, invented, reordered or misnumbered",
  "For every text file, the unprocessed texts of the items parsed from it, taken in file order, concatenate to exactly the file's content (lines normalised to newline, an empty file giving no item). Every item reports as its in-file line the number of the line on which its own text starts, counted from 1, and names the parsed file as its origin. This holds whatever mix of statements, continuations, functions, comment and python blocks, blank or unknown lines the file contains, and wherever it ends.",
  ["inputs"], "all text files: grammar-generated recipes, mutated recipes and arbitrary text, with and without final newline",
  "Tests compare a handful of fixed snippets and a few fixed line numbers; loss or shift of a line depends on which block kinds meet and where the file ends.",
  [PARSER, ITEM], [("chunking of raw lines", PARSER + ":prepare_lines"), ("block look-ahead with leftover buffer", PARSER + ":prepare_lines_subparser")],
  state=[("line counter", "number of the first line of the chunk being built", PARSER + ":prepare_lines"), ("leftover buffer", "line peeked while ending a comment/def block", PARSER + ":prepare_lines")],
  observe=["Item.RealRaw", "Item.InFileLine", "Item.Origin"])

prop("C02", "Any file content and layout is parsed without exception or endless work",
  "Adding any readable text file, missing path, directory, or set of files that include or inherit each other (also in cycles, or naming missing or ignored files) to a stash returns normally, and so do finalising it and running every query, expansion and item accessor on the result. Files truncated at any point are no exception.",
  ["inputs", "configurations"], "all texts (grammar-generated, truncated, mutated, arbitrary unicode) and all small include/inherit graphs including self references and cycles",
  "Tests parse well-formed fixtures; truncation points, hostile text and cyclic layouts are not enumerable by hand.",
  [PARSER, STASH, ITEM, INL, RPL], [("guarded line iteration", PARSER + ":prepare_lines_subparser"), ("regex calls with a timeout", RPL), ("include resolution", STASH + ":Stash.AddFile")],
  observe=["exceptions", "termination"])

prop("C03", "Variable assignments are reported with exact name, override, operator, value",
  "For every variable assignment or flag assignment written in a file, exactly one corresponding item is reported, and its name, overrides/modifiers, flag, operator and value are the ones written, including their split into variable name and override parts, the complete name with and without modifiers, and the value without its surrounding single or double quotes. The whitespace-separated entries of the value come out complete, in order, and independent of indentation and line continuations. This holds in both override syntaxes and for every operator and spacing accepted by BitBake.",
  ["inputs"], "all assignments from a grammar over names, override chains, flags, 8 operators, spacing, quoting, multi-line values, old and new override style",
  "Tests list fixed examples; the cross product of name characters, overrides, operators, spacing, quoting and continuations is unbounded.",
  [PARSER, ITEM], [("assignment regexes", PARSER), ("name/override split", ITEM + ":Item.extract_sub"), ("value stripping and splitting", ITEM + ":Variable")],
  observe=["Variable.*", "FlagAssignment.*"])

prop("C04", "Functions are reported with exact name, kind, modifiers and body",
  "Every shell or python function definition is reported as exactly one function item whose name, override parts, python and fakeroot markers, complete name and body lines are the ones written. The function's extent ends at its closing brace, so statements after it are reported as usual; text that merely mentions a function (in a comment, a value, or a block) is never reported as one. Python 'def' helpers are reported as python blocks with their name and exactly their own lines.",
  ["inputs"], "all function and def definitions from a grammar over names, prefixes, overrides, bodies with balanced braces, quoting and nested code, placed among other statements",
  "Tests contain about a dozen fixed functions; names, prefixes, brace layouts and neighbours vary without bound.",
  [PARSER, ITEM], [("function start/extent detection", PARSER + ":prepare_lines_subparser"), ("function regex", PARSER + ":get_items"), ("name/modifier split", ITEM + ":Item.extract_sub_func")],
  observe=["Function.*", "PythonBlock.*"])

prop("C05", "Directive statements are reported with all their operands",
  "Every include, require, inherit, inherit_defer, INHERIT assignment, export, addtask, deltask, unset, EXPORT_FUNCTIONS, addpylib, addfragments and include_all statement yields exactly one item of the matching kind. Its operands (file, classes, variable and value, task name, before/after task lists, trailing comment, flag, function names, paths) are exactly those written, complete and in order, for any spacing between operands.",
  ["inputs"], "all directive statements from a grammar over operands, operand order, spacing, quoting, trailing comments and continuations",
  "Tests have one or two examples per directive; operand shapes and spacing combinations are unbounded.",
  [PARSER, ITEM], [("directive regexes", PARSER), ("item classes", ITEM)], observe=["Include, Inherit, Export, TaskAdd, TaskDel, Unset, FunctionExports, AddPylib, AddFragements, IncludeAll"])

prop("C06", "A statement parses the same wherever it stands in a file",
  "The items reported for a file made of complete statements are the concatenation of the items each statement yields when parsed alone, differing only in line numbers; in particular inserting, deleting or reordering unrelated statements, comments or blank lines never changes how another statement is reported. The only carried-over state is the override syntax once the new one has been used.",
  ["inputs"], "all sequences of grammar-generated statements of every kind, including adjacent comments, def blocks, functions and unknown lines",
  "Context effects appear only for particular neighbours; tests fix a few neighbour pairs.",
  [PARSER], [("chunk boundaries", PARSER + ":prepare_lines"), ("ordered classification", PARSER + ":get_items")],
  observe=["items of concatenated vs. separate files"])

prop("C07", "Override syntax detection is per file, sticky and overridable",
  "In each file, items up to the first name using ':' as override delimiter are split with '_', that item and every later item of the same file with ':', and both styles of the same assignment give the same name and override parts. The detection in one file never influences another file, and a stash created with the new syntax forced uses ':' throughout.",
  ["inputs", "histories"], "all sequences of assignments and functions mixing both styles over several files, with and without forcing the new syntax",
  "Tests check one old-style and one new-style fixture; switching position and multi-file interplay are not sampled.",
  [PARSER, ITEM], [("sticky flag", PARSER + ":get_items"), ("delimiter selection", ITEM + ":Item.extract_sub")],
  state=[("override_syntax_new", "new override syntax seen in this file", PARSER + ":get_items")],
  observe=["Item.OverrideDelimiter", "Item.IsNewStyleOverrideSyntax"])

prop("C08", "Supported inline python conditionals expand to the selected branch",
  "Every well-formed call of a supported bb.utils/oe.utils helper inside an inline python block is replaced by exactly its true-branch argument, or by its false-branch argument when the stash asks for the negative branch, without the argument's quotes; a plain d.getVar becomes the corresponding variable reference. Text outside of the block is untouched, several blocks in one value are each replaced in place, and unsupported expressions are reported as not expandable.",
  ["inputs", "configurations"], "all supported helpers x both polarities x argument texts, quoting, spacing, number of blocks and surrounding text",
  "Tests pin one or two calls per helper; argument texts, spacing, multiple blocks and polarity interplay are unbounded.",
  [INL, PARSER], [("per-helper emulation", INL), ("block substitution", PARSER + ":prepare_lines_subparser")],
  observe=["inlinerep()", "Variable.VarValueStripped", "Variable.VarValue"])

prop("C09", "Unexpandable inline python survives expansion unchanged",
  "An inline python block that cannot be evaluated is kept as the original text (up to whitespace, line continuations and variable references inside of it): expanding a term or variable that contains it, directly or through other variables, yields the original block in its original place, with every other block and all surrounding text unaffected. No internal stand-in text ever shows up in an expanded value or in the unprocessed text of an item.",
  ["inputs"], "all values mixing literal text, references, evaluable blocks and opaque (also repeated or nested-brace) inline blocks, combined by every operator",
  "Tests contain a single opaque block per value; repeated blocks, mixed blocks and operators are not sampled.",
  [PARSER, STASH], [("inline block bookkeeping", PARSER + ":prepare_lines_subparser"), ("reversal", STASH + ":Stash._ReverseInlineBlock"), ("expansion", STASH + ":Stash.ExpandTerm"), ("", STASH + ":Stash.ExpandVar")],
  observe=["ExpandTerm()", "ExpandVar()", "Item.RealRaw"])

prop("C10", "Expanded variables follow BitBake's assignment operator semantics",
  "For every sequence of assignments, the expanded entries of each variable are those given by BitBake's rules: immediate operators applied in order, '?=' only when unset, '??=' as the last resort default, then all append and prepend overrides, then removal of whole entries named by remove overrides, with unset dropping what was immediately assigned before it. Entries keep their order, variables with different override parts stay separate, and spacing around operators, quoting style and splitting over included files or a bbappend make no difference.",
  ["inputs", "histories"], "all short programs of assignments over a few variables, 8 operators, append/prepend/remove modifiers, overrides, unset, references, split over recipe, include and bbappend",
  "Tests evaluate a few fixed programs; operator interplay is a combinatorial space over sequences.",
  [STASH, ITEM], [("operator interpreter", STASH + ":Stash.ExpandVar")], observe=["ExpandVar()"])

prop("C11", "Reference expansion substitutes known variables fully and leaves others alone",
  "Expanding a term replaces each reference (also a plain d.getVar) to a variable known in that file's scope (assigned in it or its linked files, base constants, or recipe name, version, file and directory) by its fully expanded value and leaves references to unknown or explicitly spared variables untouched, changing nothing else in the text. A block reading a file (oe.utils.read_file) is replaced in place by the content of that file, or by nothing if it cannot be read. Expansion terminates for every set of definitions, including mutually recursive ones, and gives the same answer when repeated.",
  ["inputs"], "all acyclic definition sets with nested references, spared names, unknown names and builtins; all cyclic ones for termination",
  "Tests expand a handful of strings; reference graphs, sharing, sparing and cycles are unbounded.",
  [STASH], [("recursive expansion with seen set", STASH + ":Stash.ExpandTerm")], observe=["ExpandTerm()"])

prop("C12", "Queries return exactly the items matching all filters, in line order",
  "Querying or reducing items by file, item kind, attribute and attribute value returns each item that satisfies every given filter exactly once and no other, sorted by overall line; several values of one filter are alternatives, and ignoring links restricts the result to items of the named file itself. The exported attribute-name constants of every item kind can be used as filters. The lists of recipes, classes, configuration files and appends without recipe name exactly the loaded ones.",
  ["inputs", "configurations"], "all filter combinations (single values, lists, absent) over stashes of generated files, including attribute constants of every item kind",
  "Tests filter for single fixed attributes; combinations of filters and values are unbounded.",
  [STASH, ITEM], [("filter chain", STASH + ":Stash.Reduce"), ("attribute reflection", ITEM + ":Item.GetAttributes")], observe=["GetItemsFor()", "Reduce()", "StashList.reduce()"])

prop("C13", "Query results never go stale over any history of changes",
  "After any interleaving of adding files, appending or removing items, changing the constants, finalising and querying, every query answers as if it had been asked for the first time on that state: earlier queries never influence later answers. Files, classes, packages, images, links, lone appends, names and items added or removed in between are reflected immediately.",
  ["histories"], "all interleavings of AddFile, Append, Remove, Finalize and every public query",
  "Tests query once after one load; staleness needs query-modify-query histories.",
  [STASH], [("memoised queries", STASH), ("cache reset", STASH + ":Stash._clear_cached")],
  state=[("memo tables", "results of earlier queries", STASH)], observe=["all public Stash queries"])

prop("C14", "A file's scope is exactly everything it includes, inherits or is appended by",
  "After finalising, the files linked to a file are exactly those reachable from it through include, require, inherit and matching bbappends, directly or transitively, whatever the order in which files were added. Items of a file are reported as included from exactly the files whose scope contains it. Files not connected to it are never part of its scope.",
  ["inputs", "configurations", "histories"], "all small file graphs of recipes, includes, classes and appends, diamonds and chains, in any order of addition",
  "Tests link two or three fixture files; closure and order effects need deeper graphs.",
  [STASH, PARSER], [("link map", STASH + ":Stash.AddFile"), ("closure", STASH + ":Stash.Finalize")],
  state=[("file map", "file -> linked files", STASH)], observe=["GetLinksForFile()", "GetItemsFor(filename)", "Item.IncludedFrom"])

prop("C15", "bbappends attach to exactly the recipes they name, in any loading order",
  "A bbappend applies to precisely those recipes whose file name equals its own with the extension changed, where '%' stands for any text; every other character is literal. Which appends apply to which recipes, which appends are lone, and the effective values do not depend on whether recipe or append was added first, and an append's assignments take effect after all of the recipe's.",
  ["inputs", "histories"], "all small sets of recipe and append file names, with wildcards and special characters, in every order of addition",
  "Tests use two append fixtures in one order; name patterns and orders are unbounded.",
  [STASH], [("append matching", STASH + ":Stash.AddFile"), ("lone appends", STASH + ":Stash.GetLoneAppends")], observe=["GetLinksForFile()", "GetLoneAppends()", "ExpandVar()", "Item.Line"])

prop("C16", "Overall line order equals the order in which statements take effect",
  "Within the scope of a recipe, ordering all items by their overall line places the items of an included or inherited file at the position of the statement that pulls it in: after everything written before that statement and before everything written after it, at every nesting depth. Items of one file always keep their written order.",
  ["inputs", "configurations"], "all include/inherit trees with repeated, nested, trailing and adjacent includes of files of any length",
  "Tests check one include of one file; order errors need several or nested includes.",
  [PARSER, STASH], [("line offsets for included files", PARSER + ":get_items"), ("", STASH + ":Stash.AddFile")],
  state=[("includeOffset", "lines taken by files included so far", PARSER + ":get_items")], observe=["Item.Line", "GetItemsFor()", "ExpandVar()"])

prop("C17", "Result lists behave like lists and never alter the stash",
  "A list returned by a query supports length, indexing, slicing, iteration, membership, concatenation, append, extend, insert, remove and in-place reduction with the results an ordinary list of the same items would give. Changing such a list, another list derived from it, or any other list, set or dictionary handed out by a query or expansion of the stash never changes the stash, other results, or later query results.",
  ["histories"], "all sequences of list operations on query results, interleaved with queries",
  "Tests call append and reduce once; operation sequences and aliasing are unbounded.",
  [STASH], [("list wrapper", STASH + ":Stash.StashList"), ("query result construction", STASH + ":Stash.GetItemsFor")], observe=["StashList operations", "GetItemsFor()"])

prop("C18", "The fingerprint is reproducible and reacts to every content change",
  "Loading the same files in the same order with the same options always gives the same fingerprint, in every process and regardless of queries or finalising in between. Any change to the parsed content, to the set of files, or to the parsing options gives a different fingerprint.",
  ["inputs", "configurations"], "all generated file sets, options, hash randomisation seeds, and single edits",
  "No test looks at the fingerprint across processes; determinism quantifies over runs.",
  [STASH, ITEM], [("incremental digest", STASH + ":Stash.AddFile"), ("item text form", ITEM + ":Item.__repr__")],
  state=[("fingerprint", "running digest", STASH)], observe=["Stash.FingerPrint"])

prop("C19", "Constants can be added, removed and overridden without side effects",
  "Adding constants appends to lists and creates missing entries, removing takes exactly the named list entries or keys away, overriding replaces exactly the named entries, at any nesting depth, and everything else stays as it was. Looking up a path returns the entry or an empty mapping when absent, the named accessors agree with their paths, and dictionaries handed in are never modified later on.",
  ["histories", "inputs"], "all sequences of add, remove and override operations with nested dictionaries over existing and new paths",
  "Tests perform single operations on fixed paths; sequences and aliasing are unbounded.",
  [CON], [("recursive merge", CON)], state=[("database", "nested constants", CON)], observe=["Constants.*"])

prop("C20", "Files are resolved next to the including file first, then in its layer",
  "An include, require or inherit resolves to the file relative to the including file's directory if it exists, otherwise to the one relative to the root of the layer containing it, otherwise to nothing; classes are looked up in the class directories in their documented order, and names on the ignore lists are not followed (though still reported as written). The layer root of any path is the closest enclosing directory holding a layer configuration, and the distro and machine names of a layer become known when one of its files is added.",
  ["inputs", "configurations"], "all small directory layouts with nested layers, shadowed and missing files, class directories and ignore lists",
  "Tests use one fixture layer; shadowing and nesting combinations are unbounded.",
  [STASH, PARSER], [("search", STASH + ":Stash.FindLocalOrLayer"), ("layer root", STASH + ":Stash.GetLayerRoot"), ("class lookup", PARSER + ":get_items"), ("distro/machine discovery", STASH + ":Stash.AddDistroMachineFromLayer")],
  observe=["Include.FileIncluded", "Inherit.FilePaths", "GetLayerRoot()", "FindLocalOrLayer()", "CONSTANTS"])

prop("C21", "SRC_URI entries decompose into scheme, location and all options",
  "For every source URI made of a scheme, a location and semicolon-separated options, the reported components are exactly these parts, with every option value complete (also when it contains '='), and known mirror names replaced by their configured value. The valid resource names of a recipe are exactly its own name plus the names given by the name options in its SRC_URI entries.",
  ["inputs"], "all URIs from a grammar over schemes, hosts, paths, option lists, mirrors; all recipes using them",
  "Tests decompose a few fixed URIs; option values and combinations are unbounded.",
  [STASH], [("URI split", STASH + ":Stash.GetScrComponents"), ("named resources", STASH + ":Stash.GetValidNamedResources")], observe=["GetScrComponents()", "GetValidNamedResources()"])

prop("C22", "Package names, dynamic packages and recipe kinds match the definitions",
  "The valid package names of a recipe are exactly the standard ones derived from its name plus every expanded entry its package variables name; a name is a dynamic package iff it matches one of the recipe's dynamic package patterns, none of which is ever empty. A recipe is an image iff it inherits a known image class or sets a known image variable, and a package group iff it inherits packagegroup, in its own file or in any file linked to it.",
  ["inputs", "configurations"], "all recipes over package variables, dynamic patterns, inherits, image variables, spread over linked files, and custom constants",
  "Tests classify one fixture of each kind; spacing, spreading over files and configured constants are unbounded.",
  [STASH], [("package names", STASH + ":Stash.GetValidPackageNames"), ("dynamic packages", STASH + ":Stash.IsDynamicPackage"), ("kinds", STASH + ":Stash.IsImage")], observe=["GetValidPackageNames()", "GetPackagesDynamic()", "IsDynamicPackage()", "IsImage()", "IsPackageGroup()"])

prop("C23", "Recipe name, base name and version follow from the file name",
  "For every recipe file name of the form name_version, the recipe name is the part before the first underscore, the version is the part between the first and second underscore or absent, and the base name is the recipe name without the nativesdk- prefix and the -native or -cross suffix. References to the corresponding builtin variables expand to these values, with version 1.0 when the file name has none, in the scope of the file asked for.",
  ["inputs"], "all recipe path names over name, variant prefix and suffix, version and directory",
  "Tests check three fixture names; name shapes are unbounded.",
  [STASH], [("name guessing", STASH + ":Stash.GuessRecipeName"), ("", STASH + ":Stash.GuessBaseRecipeName"), ("", STASH + ":Stash.GuessRecipeVersion")], observe=["GuessRecipeName()", "GuessBaseRecipeName()", "GuessRecipeVersion()", "ExpandTerm()", "ExpandVar()"])

prop("C24", "Safe regex calls agree with the regex engine and give up with the default",
  "For every pattern, text and flags, a safe search, match, split, substitution or iteration gives the same result as the underlying regex engine. If the engine exceeds the time limit, the caller's default is returned instead (an empty list for splitting when none is given) and no exception escapes, also while results are being consumed.",
  ["inputs"], "all simple patterns, texts, flags, counts and keyword arguments; catastrophic patterns with short limits",
  "Tests never reach a timeout and never pass flags; both quantify over patterns.",
  [RPL], [("timeout wrappers", RPL)], observe=["RegexRpl.*"])

prop("C25", "Stashes are independent of each other",
  "What a stash reports depends only on the files added to it, their order, its options and the configured constants: creating, filling, querying and changing other stashes before, after or in between never changes its items, queries or expansions. Loading the same files again in a new stash reproduces all reported items.",
  ["histories"], "all interleavings of operations on two or three stashes with different options and files",
  "Tests use one stash per process; cross-talk needs interleaved instances.",
  [STASH, PARSER], [("instance state", STASH + ":Stash.__init__"), ("class-level memoisation", STASH)], observe=["all public Stash queries"])

prop("C26", "Meaning-preserving reformatting never changes effective values",
  "Rewriting a recipe without changing its meaning (inserting blank and comment lines, changing spacing around operators, splitting values over continuation lines, changing quote style, moving a run of statements to an included file, old versus new override syntax) leaves the expanded values, inherited classes, tasks, functions and package names unchanged.",
  ["inputs"], "all generated recipes and all sequences of meaning-preserving rewrites",
  "Tests hold single spellings; equivalence of spellings is a relation between inputs.",
  [PARSER, ITEM, STASH], [("parsing", PARSER), ("value handling", ITEM), ("expansion", STASH)], observe=["ExpandVar()", "GetItemsFor()", "GetValidPackageNames()"])

prop("C27", "What a recipe looks like is independent of unrelated recipes in the stash",
  "The items, links, expanded values, package names and classification of a recipe are the same whether its files are loaded alone or together with any other recipes, includes and appends not connected to it, in any order, also if those recipes inherit the same class (which then assigns variables of its own and shares no include file).",
  ["configurations", "histories"], "all pairs of recipe file sets and orders of addition",
  "Tests load one recipe family; interference needs combinations.",
  [STASH], [("link map", STASH), ("seen files/classes", STASH + ":Stash.AddFile")], observe=["GetItemsFor(filename)", "ExpandVar()", "GetLinksForFile()", "IsImage()"])

prop("C28", "Item classification helpers agree with the written statement",
  "For every variable and function, the helpers telling whether it appends, which append operations it uses, whether it modifies immediately, spans several lines, stems from a class or a bbappend, and which machine, distro or class override it carries, give exactly the answer determined by the written name, operator, text, origin and the configured constants.",
  ["inputs", "configurations"], "all assignments and functions from the grammar, in every file type, with configured distros",
  "Tests check selected helper/statement pairs; the combinations are unbounded.",
  [ITEM], [("classification helpers", ITEM + ":Variable"), ("", ITEM + ":Function")], observe=["IsAppend, AppendOperation, IsImmediateModify, IsMultiLine, IsFromClass, IsFromAppend, Get*Entry, GetClassOverride"])

prop("C29", "File search finds exactly the matching files beside linked sources",
  "Searching a recipe's files by pattern returns exactly the sorted existing paths matching the pattern one directory below the directory of any file that takes part in its SRC_URI, whatever other files exist, and nothing for recipes without SRC_URI.",
  ["configurations"], "all small directory layouts and patterns, SRC_URI in recipe, include or append",
  "Tests search one fixture directory.",
  [STASH], [("glob search", STASH + ":Stash.GetFiles")], observe=["GetFiles()"])

prop("C30", "An edited item reports the edit, and nothing else changes",
  "Assigning the value of a variable, the body of a function, or the line, processed or unprocessed text of an item is reflected by that item and everything derived from it (stripped value, entries, attributes, helpers, its place in the line order), while its other properties and all other items stay as they are. Queries and expansions asked afterwards answer as if the edited content had been parsed.",
  ["inputs", "histories"], "all files in two versions that differ in values and bodies, all subsets of edits, all permutations of lines",
  "Tests do not edit items; what has to follow an edit is a relation between two loads.",
  [ITEM, STASH], [("property setters and derived values", ITEM)], observe=["VarValue, FuncBody, Raw, RealRaw, Line", "GetAttributes()", "ExpandVar()", "GetItemsFor()"])

prop("C31", "Items built by hand report what parsed ones do",
  "An item of any kind created by its constructor from the pieces of a statement (optional arguments left out where the statement lacks them) reports the same attributes, entries and classification as the item parsed from that statement. Appended to a stash, such items answer queries and expansions of their file as the parsed ones do.",
  ["inputs", "programs"], "all statements of all item kinds, all ways to hand over the arguments",
  "Tests never create items by hand; agreement with the parser is a differential relation over all statements.",
  [ITEM, STASH], [("constructors", ITEM + ":Variable.__init__"), ("items added by hand", STASH + ":Stash.Append")], observe=["constructors", "GetAttributes()", "Append()", "GetItemsFor()", "ExpandVar()"])

prop("C32", "The items of a file are its statements, one each and of the right kind",
  "Parsing a file yields one item per statement, comment block, blank line and line that is no statement, in order, each of the kind the text is: comments are reported line by line as comments whatever they mention, blank lines and text no directive matches (misspelt, incomplete or misplaced keywords) as plain items with their words, and none of them as a directive. Every item names the file it stems from and whether that is a class or an append.",
  ["inputs"], "all files of statements of any kind, comments, blank lines and near misses of statements, in every file type and override syntax",
  "Tests look for the statements they expect; what must not be reported, in which context, is unbounded.",
  [PARSER, ITEM], [("ordered statement expressions", PARSER + ":get_items"), ("comment and def blocks", PARSER + ":prepare_lines")], observe=["AddFile()", "GetItemsFor()", "CLASSIFIER", "get_items()", "Origin"])

prop("C33", "How the path of a file is spelled makes no difference",
  "Adding a file by a relative path from any working directory or by a path with redundant parts ('.', '..', doubled slashes), or including it by such a path, has the same effect as its plain absolute path: every item names the plain absolute path as its origin, a file reached by several spellings is one file (classes and appends are not read twice, links, scopes and expansions are the same), the fingerprint does not depend on the spelling used to add files, and changing the working directory afterwards has no effect.",
  ["inputs", "histories"], "all projects of linked files, spellings of the paths they are added and included by, and working directories",
  "Tests add files by absolute paths of temporary files; spellings multiply over files, statements and working directories.",
  [STASH, PARSER], [("normalised path", STASH + ":Stash.AddFile"), ("include resolution", STASH + ":Stash.FindLocalOrLayer")], observe=["AddFile()", "GetItemsFor()", "Origin", "IncludedFrom", "GetLinksForFile()", "FingerPrint"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
