"""Source of properties.jsonl and MANIFEST.json: `python3 tools/props.py` rewrites both."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/svdsuite/"
RES, GR, GB, PR, PA, SE, MA, VA, XM, PC, MO, TY, LG, HG = (
    S + "resolve/resolver.py", S + "resolve/graph.py", S + "resolve/graph_builder.py", S + "process.py", S + "parse.py",
    S + "serialize.py", S + "map.py", S + "validate.py", S + "util/xml_parse.py",
    S + "util/process_parse_model_convert.py", S + "model/process.py", S + "model/types.py", S + "resolve/logger.py",
    S + "util/html_generator.py")
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=("Process.get_processed_device",), state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": list(observe), "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)


I, H, PRG, SCH, CFG, CR, FS = "inputs", "histories", "programs", "schedules", "configurations", "crash_points", "fault_sequences"

prop("C01", "The declaration order of siblings does not matter",
     "Two documents that differ only in the order in which sibling elements (peripherals, clusters, registers, fields, enumerated-value containers) are declared process to the same device, or are both rejected. "
     "In particular an element may be derived from one declared before or after it, in the same or in another scope.",
     [I, PRG], "every permutation of the siblings of every document with derivation chains, forward references and references across levels and scopes",
     "The tests fix one declaration order per document (forward and backward reference for a few pairs); the resolver's worklist order follows the document, so order bugs show only under particular permutations of particular graphs.",
     [RES, GR, GB], [("worklist of processable nodes and waiting for bases", RES), ("topological order of the dependency graph", GR)],
     state=[("dependency graph", "elements, placeholders and derive/child edges still to be resolved", GR)])
prop("C02", "A derived element is its base with its own declarations on top",
     'A derived element takes from its base every inheritable property it does not declare itself and keeps every one it does, including explicit zero and false values. Its children are its own plus those of its base, each complete, transitively along every chain of derivations; two children of one name are rejected, not merged.',
     [I, PRG], "every derivation between peripherals, clusters, registers and fields, over chains and trees, for every subset of properties declared on either side",
     "Tests derive one or two elements with a fixed set of properties each; whether each property is inherited, overridden or mixed at each link of each chain is a product space.",
     [PR, RES], [("own value, else base's", PR), ("merging of own and inherited children", RES)])
prop("C03", "A derivation path names the element it says",
     'A path in derivedFrom designates the element reached by following its names from the scope in which the deriving element stands or, if nothing is found there, from the top of the device, and only an element of the same kind. A path which designates an element works wherever and in whichever order that element is declared, be it inherited or an instance of a dim element, and equally named elements of other kinds or scopes are never taken instead. A path that designates several elements is rejected, except that a register outside alternate groups has precedence over those inside.',
     [I, PRG], "every path of up to four names in every containment tree with names colliding between scopes and kinds",
     "Tests use unique names in most documents; ambiguity needs collisions between particular scopes, resolved in a particular order.",
     [RES, GR], [("path search", RES), ("placeholder resolution", RES)])
prop("C04", "Unresolvable or cyclic inheritance is rejected, always in finite time",
     "A document in which an element is derived from something that does not exist, from itself, from something that contains it or, through any chain, from something derived from it is rejected with an exception. "
     "Processing terminates for every document, and no document with resolvable, acyclic inheritance is rejected on these grounds.",
     [I, PRG], "every derivation graph over up to four siblings or six elements across levels, including cycles through containment",
     "Tests contain a few self references and two-element cycles; cycles that arise through containment or replication need multi-level graphs.",
     [RES, GR, GB], [("loop detection", RES), ("unresolved placeholder detection", RES)])
prop("C05", "dim expands to the stated instances at the stated addresses",
     'An element with dim n and the placeholder in its name becomes n elements, the k-th at offset (for fields: bit offset) + k x dimIncrement, named by substituting the k-th label (number, letter or listed text) for the placeholder in name and display name. Every instance has the complete content of the template.',
     [I], "every dim, increment, index form and placeholder position on peripherals, clusters, registers and fields and their nestings",
     "Tests sample one or two dims per kind with a fixed index form.", [PR, RES], [("dim expansion", PR), ("replication of descendants", RES)])
prop("C06", "Malformed dim declarations are rejected",
     'A dim below one, an index text that is malformed or does not have as many labels as dim states, a placeholder without dim, a peripheral list, a field array, or a display name of the wrong form of placeholder is rejected with an exception. A well-formed declaration is never rejected; a dim without placeholder in the name is ignored with a warning.',
     [I], "every index text over the characters of its grammar up to a length, every combination of dim, increment, index and name",
     "Tests try a handful of malformed texts; the grammar's language has no finite test suite short of enumeration.", [PR], [("dim index grammar", PR)])
prop("C07", "Derivation and dim combine",
     "An element derived from an expanded element or from one of its instances, and an expanded element which is derived, has for each instance the content, name and address that the definition of both mechanisms gives. "
     "Elements inside an expanded element may themselves be derived or serve as base.",
     [I, PRG], "every combination of derivation and dim on chains of up to three elements on the same or on nested levels",
     "Each mechanism is tested alone; their combinations depend on the order in which the resolver replicates and resolves.", [RES, PR, GR], [("replication of dim descendants with placeholders", RES)])
prop("C08", "Register properties are inherited down the hierarchy",
     'Access, protection, reset value and reset mask of a register or cluster are those declared on it (or inherited by derivation), else those of the nearest enclosing element that has them, else the defaults of the format. A field takes access and write constraint from itself, else from its register; modified write values default to plain modification, and a read action is never inherited from the register.',
     [I], "every subset of the five levels (device, peripheral, cluster, nested cluster, register) declaring every property",
     "Tests set a property at one or two levels; a level skipped or overriding a nearer one shows only for particular subsets.", [PR], [("property inheritance", PR)])
prop("C09", "Sizes are inherited downwards and adjusted upwards",
     'The size of a cluster or peripheral is that of the widest register or cluster directly inside it, each counted with its own size or else the one declared on the nearest enclosing element (default 32). A register without own size takes the size of what encloses it after this adjustment; a size that is no multiple of eight counts as none, and what has it is left out with a warning.',
     [I], "every assignment of sizes, including odd ones, to up to five nested levels",
     "Tests use one size layout per document.", [PR, RES], [("size calculation", RES), ("size inheritance", PR)])
prop("C10", "Absolute addresses and extents are the sums of the declared offsets",
     'The absolute address of every register and cluster is the base address of its peripheral plus the offsets of all enclosing clusters plus its own. The end of a register follows from its size, the end of a cluster and the effective end of a peripheral from the last byte of their contents, the declared end of a peripheral from its address blocks.',
     [I], "every nesting of clusters up to three levels, with dims, offsets, base addresses up to 64 bit and address blocks",
     "Tests check small offsets in fixed layouts.", [PR, MO], [("address computation", PR), ("derived attributes of the model", MO)])
prop("C11", "Processed lists are complete and in order",
     'Peripherals, registers and clusters, fields, interrupts, address blocks and enumerated values of a processed device come in ascending order of address, position or value, registers outside alternate groups first and then by name where that is equal, independent of declaration order. The flattened list of registers of a peripheral contains every register at any depth exactly once.',
     [I], "every document order and every tie of up to four siblings per level",
     "Tests contain one order each and few ties.", [PR], [("sorting and flattening", PR)])
prop("C12", "Enumerated values expand to exactly the values they stand for",
     "A value with don't-care bits stands for every value that matches it, a default entry for every value of the field not otherwise named, each exactly once, with a name of its own and the entry's description. Entries that repeat a name or value, are called reserved or lie outside the field's range are left out with a warning; text that is no value, an entry with neither value nor default, and two defaults are rejected.",
     [I], "every pattern over 0, 1 and x up to six bits, every set of such patterns, every literal form, with and without default",
     "Tests try single patterns; overlaps between patterns, default and range are a product.", [PR], [("wildcard expansion", PR), ("enumerated value validation", PR)])
prop("C13", "Enumerated-value containers have one usage each and copies are complete",
     'A field has at most one container for reading and one for writing, a container without usage serving both; anything else is rejected. A container derived from another has its values, wherever the other one is declared, fitted to the field it stands in, and is an independent copy.',
     [I, PRG], "every combination of up to three containers on a field and of their derivations across fields, registers, dims",
     "Tests derive one container.", [PR, RES], [("container checks", PR), ("container derivation", RES)])
prop("C14", "All notations of a field's position mean the same",
     'bitOffset with bitWidth, lsb with msb, and bitRange describe the same position for equal bounds. A field without complete position, own or inherited, is rejected; a bitRange with its bounds exchanged is read in ascending order and a field reaching beyond its register is kept, both with a warning.',
     [I], "every position in registers of every width, in every notation and combination of notations",
     "Tests try a few positions per notation.", [PR, PA], [("msb/lsb computation", PR)])
prop("C15", "Fields overlap only if they are never accessed the same way",
     'Two fields of a register which share a bit are rejected if one kind of access (read or write) reaches both, and accepted otherwise. The verdict does not depend on the order of the fields.',
     [I], "every pair of positions and every triple on a grid, every combination of access modes",
     "Tests check two or three pairs of positions and access.", [PR], [("field overlap check", PR)])
prop("C16", "Names are unique within their scope",
     'After expansion and inheritance, two siblings with the same name (peripherals, registers and clusters of a scope, fields of a register) are rejected, wherever the names came from; registers of different alternate groups are no such pair. Equal names in different scopes, or differing in case, are accepted.',
     [I], "every assignment of names from a colliding alphabet, including results of dim and derivation",
     "Tests have one literal duplicate per level.", [PR, RES], [("duplicate checks", PR)])
prop("C17", "An address overlap is reported iff it is not declared as alternate",
     'Peripherals, and registers or clusters of a scope, which occupy a common address cause a warning unless one of the two names the other as its alternate or, for registers, belongs to an alternate group. There is no such warning without overlap, and an overlap never leads to rejection.',
     [I], "every placement of two or three elements on an address grid with every assignment of alternate declarations",
     "Tests check one overlapping layout per level.", [PR], [("overlap checks", PR), ("alternate names", PR)], ("warnings of Process",))
prop("C18", "Nothing of a document is lost in silence",
     'Every element of an accepted document is in the processed device unless it is called reserved, has no usable content or a size that is no number of bytes, and then a warning names it. Leaving out one element never removes another that does not consist of it.',
     [I], "every set of registers, clusters and fields containing unusable elements (reserved, empty, sizes that are no number of bytes)",
     "Tests have one ignorable element in one place.", [PR], [("ignoring of elements", PR)])
prop("C19", "Literals are read as what they say or rejected",
     "Every number in decimal, hexadecimal or binary notation, every boolean and every keyword of the format is read as its value in every place where it may stand. "
     "What is not a literal of its type is rejected with an exception, never replaced by a default; the one exception is an unknown access of a register, field or register property group, which is taken as absent with a warning that names it.",
     [I], "every text up to a length over the characters of literals, in every place of the format",
     "Tests try a few texts in some of the about 100 places.", [PA, TY], [("text conversions", PA)], ("Parser.get_parsed_device",))
prop("C20", "The parsed device says what the document says",
     "Every element and attribute of the document that the format defines appears at its place, with its value and in document order, in the parsed device, and absent ones are absent. "
     "Comments, processing instructions, blanks around texts and namespaces make no difference, and every element is linked to the one that contains it.",
     [I], "every subset (up to two changes) of the optional parts of every kind of element, every order of mixed children",
     "Tests parse a fixed document per kind; a swapped or forgotten attribute in a combination goes unseen.", [PA, S + "model/parse.py"], [("element parsers", PA)], ("Parser.get_parsed_device",))
prop("C21", "Parsing what was serialized gives the same device back",
     "For every device, serializing it with any combination of pretty printing, declaration and target and parsing the result gives an equal device. "
     "Serializing again gives the same bytes.",
     [I, CFG], "every parsed device and every device made of objects, with any optional part present or absent, and texts XML can express",
     "Tests serialize one device per kind and compare texts.", [SE, PA], [("element writers", SE)], ("Serializer", "Parser"))
prop("C22", "Serialized output stays valid under the schema its document satisfied",
     "A document that is valid under a schema version, parsed and serialized again, is valid under that same version. "
     "Likewise a device made of objects within what a version can express.",
     [I, CFG], "every version of the schema, every document derived from a full and a minimal one by up to two changes",
     "Tests never validate serializer output against each version.", [SE], [("order of children", SE)], ("Serializer",))
prop("C23", "A processed device, written out, is processed to itself",
     "Converting a processed device back, serializing it and processing the result gives the same processed device, without any inheritance or expansion left in the written document. "
     "This holds for every accepted document of which something remains; and if that document is valid under the latest schema, so is the written one, unless an expanded name begins with a digit.",
     [I, H], "every accepted document of the spaces of the other properties",
     "Tests convert a single device and compare it attribute by attribute with itself.", [PC, SE, PR], [("conversion", PC)], ("Process.convert_processed_device_to_svd_device", "Serializer"))
prop("C24", "The validator accepts exactly what the chosen schema version accepts",
     "For every document and every version, the validator's verdict is that of the published schema of that version, the latest one if none is asked for. An invalid document gives an exception if one is asked for and false otherwise, through every entry point alike.",
     [I, CFG], "all 14 versions (and the default) x documents with one structural or lexical change at each place x entry points",
     "Tests validate a few documents against few versions.", [VA, S + "schema"], [("schema selection", VA)], ("Validator",))
prop("C25", "The register map lists every register once, at its absolute address",
     'For every device, the map lists each peripheral with each of its registers at any depth exactly once, with the absolute addresses, names and properties of the processed device, peripherals in ascending order. The allocated range of a peripheral covers all of its address blocks, and what cannot be processed cannot be mapped.',
     [I], "every accepted document of other spaces, and peripherals with several address blocks",
     "Tests map a few devices.", [MA, S + "model/map.py"], [("map construction", MA)], ("PeripheralRegisterMap",))
prop("C26", "Entry point and encoding make no difference",
     "A document gives the same result through file, bytes or string, in whichever encoding it is stored, with or without declaration and byte order mark. "
     "Files with bytes invalid in their encoding are read with the documented fallback encodings or rejected, identically for file and bytes.",
     [I, CFG], "every byte above 0x7f in several places, every encoding and declaration, each entry point of each class",
     "Tests read ASCII documents, mostly from strings.", [XM, PA, PR, VA, MA], [("loading with fallback encodings", XM)], ("Parser", "Process", "Validator", "PeripheralRegisterMap"))
prop("C27", "A torn or corrupted document is never taken for a whole one",
     "A document which is not well-formed, such as one cut off at any byte or with a damaged byte, is rejected by every entry point with an exception or, if something can be recovered from it, accepted with a warning, never in silence. "
     "A well-formed one is parsed as it stands, without a warning.",
     [CR, FS, I], "every truncation point and every single-byte corruption, deletion, duplication, exchange",
     "Tests contain no torn document.", [XM], [("strict parsing", XM)], ("Parser", "Process", "Validator"))
prop("C28", "Processing leaves its input alone and shares nothing",
     "Processing, converting and serializing do not change the device they are given, and changing any part of a result changes no other part of it, nor the input, nor the result of another run. "
     "Processed elements refer back to the parsed elements they come from.",
     [I, H], "every derivation, dim and container copy in every document of other spaces; every mutable part of the result",
     "Aliasing between base and derived elements is invisible until somebody changes one of them.", [PR, RES, MO, PC], [("copies", PR), ("copies of intermediate objects", MO)], ("Process", "Serializer"))
prop("C29", "Results do not depend on history",
     'A document gives the same result, warnings and exceptions whatever was parsed, processed, validated, mapped or serialized before in the same program, rejected documents included, and whatever the hash seed of the interpreter. Asking an object again for its result gives the same answer.',
     [H, CFG], "every sequence of up to three operations over documents of different kinds, all pairs of operations; several hash seeds",
     "Each test processes one document in a fresh object, so state left behind between documents cannot show.", [RES, GR, PR, PA, VA, XM], [("per-instance resolver state", RES)], ("all public classes",))
prop("C30", "Independent objects can be used in concurrent threads",
     "Two threads that each parse, process, serialize, validate or map their own document get the results they get alone, under every schedule.",
     [SCH], "every schedule of two threads with up to one (thorough: two) preemptions at any line of the library, every pair of operations",
     "Tests are single-threaded.", [S + "resolve/resolver.py", PR, PA, SE, VA, XM], [("no module-level state", S + "process.py")], ("all public classes",))
prop("C31", "Resolver logging changes nothing",
     'With a log path given, a document gives the same device, the same warnings and the same exception as without. When processing has ended, be it with a device or with a rejection because of inheritance, the log has been written, can be read, and mentions every element that was resolved.',
     [I, CFG], "every document of other spaces, with and without logging", "No test exercises logging.", [LG, HG, RES], [("logger", LG), ("HTML generation", HG)], ("Process",))
prop("C32", "Device, processor and security information is complete, with defaults",
     "Everything a document says about the device itself, its processor and its security regions is in the processed device, and what it does not say has the default value the format gives. "
     "An explicit false or zero is never taken for absent.",
     [I], "every combination of up to three deviating attributes", "Tests set all or nothing.", [PR], [("device and cpu processing", PR)])
prop("C33", "A failed serialization raises and destroys nothing",
     'If XML cannot express a text of the device, or the file system fails at any byte, serialization raises an exception and never leaves cut-off or ill-formed content behind in silence. Whenever the device itself cannot be serialized, all ways to serialize agree, an existing target file is untouched and no new one appears.',
     [FS, CR, I], "every place of a device x every inexpressible text or missing or ill-typed value; a file size limit at every byte; missing directory, full device, directory as target",
     "Tests only write good devices to good places.", [SE], [("content is complete before the file is opened", SE)], ("Serializer",))
prop("C34", "Model objects are values",
     'Two devices (parsed, processed or converted) obtained from the same document compare equal, element by element, and ones that differ in any attribute of any element do not. A copy (copy.deepcopy, pickle) of a device is equal to it, complete, linked to its own containers, and shares no element with it; every device has a printable representation. None of this raises.',
     [I], "every document of other spaces; every attribute of every element changed; both ways of copying",
     "The tests compare attributes one at a time and never two devices; links to the container make comparing and copying cyclic, which only nested documents show.",
     [S + "model/parse.py", MO], [("dataclass equality, links to the container left out", S + "model/parse.py")], ("Parser", "Process"))
prop("C35", "Size does not matter",
     'The rules of processing hold for any number of siblings, length of derivation chains, depth of nesting, size of arrays and of lists, length of names, and magnitude of addresses, values and bit positions (up to 64 bits): the device is the one the rules give, in order, complete, in time, without exhausting the interpreter.',
     [I], "every combination of a large dimension (count, depth, length, magnitude up to the stated bounds) with kind, document order and style of names",
     "Tests use two or three of everything at small addresses; ten instances, a 64-bit address or a chain of forty derivations behave differently in code that sorts texts, recurses or masks.",
     [RES, GR, PR, PC], [("worklist and recursion over the tree", RES), ("sorting and numbering of instances", PR)])
prop("C36", "Names and addresses are arbitrary",
     'Renaming all elements of a document consistently (a prefix before every name and in every reference to it) changes the result by exactly that renaming, and moving all peripherals by one distance changes it by exactly that distance; acceptance and the number of warnings stay. (Only the name "reserved" has a meaning of its own.)',
     [I, PRG], "every document of other spaces x prefixes x distances", "Tests use one set of names and addresses; code that cuts, compares or matches names and paths, or treats address zero or high addresses specially, fails for others.",
     [RES, GR, PR], [("path resolution by name", RES), ("absolute addresses", PR)])
prop("C37", "Unrelated content does not interfere",
     'Adding an element that no other refers to, that overlaps none and has a name of its own on its level (another peripheral, before or after, whatever its contents are called; another register; a copy of every peripheral under another name at another place) leaves everything else of the result as it was and does not decide whether a document is accepted. Copies of a peripheral differ from it in name and addresses only.',
     [I, PRG], "every document of other spaces x five additions", "Tests look at one construct per document, so confusion of elements of equal names or positions in different places cannot show.",
     [RES, GR, PR], [("lookup restricted to the right scope", RES), ("state of one peripheral kept from the next", PR)])

prop("C38", "What is refused is refused on purpose",
     'Whatever is missing, doubled, misplaced, misspelt, empty, out of range or contradictory in a document, parsing, validating, processing, converting, serializing and mapping it either work or raise an exception meant for that; none ever ends in an internal error of the library (AttributeError, KeyError, IndexError, TypeError, AssertionError, RecursionError, NameError, ArithmeticError and the like).',
     [I], "every element of a document that has everything: removed, doubled, renamed, emptied, moved, every text and attribute replaced; every pair of structural changes; every document of other spaces",
     "Tests malform one thing of one construct; internal errors come from states nobody thought of, mostly from two things missing or wrong at once.",
     [PA, PR, RES, VA, XM], [("mandatory elements and conversions", PA), ("resolution without a base", RES), ("placement checks", PR)],
     ("Parser", "Process", "Serializer", "PeripheralRegisterMap", "Validator"))
prop("C39", "Features combine",
     'Used together in one document, the features of the format (arrays and lists at every level, derivation at every level from templates, instances and paths, inherited and overridden properties, alternates, nested clusters, enumerations with wildcards and defaults, write constraints, address blocks, document order) each mean what they mean alone: the device, or the refusal, is the one that the rules give.',
     [I, PRG], "every pair of about seventy features in every way, every triple in one way (thorough: triples in every way, four at once), full products of the features that touch each other",
     "The number of combinations exceeds any list of tests by orders of magnitude; most mistakes of such a processor show only when two or three features meet.",
     [RES, GR, GB, PR, PC, MO], [("order of resolution", RES), ("inheritance and replication", PR)])
prop("C40", "A document stands for itself",
     "Parsing, validating, processing, converting or mapping a document opens no other file and no connection, whatever entities, document type, schema location, inclusions or style sheets the document names, and takes nothing from elsewhere into the result; entities that multiply are refused, or at least not expanded without bound.",
     [I, CFG], "every combination of constructs by which an XML document can refer to something else (entities in every place, document types, schema locations, inclusions, style sheets, base addresses), with every way the library reads documents",
     "Documents come from vendors and downloads. No test contains a document type or an entity; whether the parser resolves them depends on options at each place that parses, one of which suffices to open files.",
     [XM, PA, VA], [("safe options of the XML parser", XM), ("parsing of document and schema", VA)], ("Parser", "Validator", "Process"))

prop("C41", "Where a device comes from makes no difference",
     "Processing, converting, mapping or serializing a device gives the same result, exception and warnings whether the device was parsed, copied, unpickled, read back from what the serializer wrote, or made of the classes of the model with equal contents (defaults given or left out, with or without links to the containing element, equal parts made once and used several times or made each time).",
     [I, PRG], "every document of other spaces x nine ways to come by an equal device", "Tests process parsed documents, where links are always set, no part is shared and nothing is left to a default; code that compares by identity, relies on links or stores notes in the parsed objects works there and fails for devices made by programs.",
     [PR, GB, GR, SE, S + "model/parse.py"], [("building of the dependency graph from parsed elements", GB), ("reading of parsed elements", PR), ("writing of parsed elements", SE)],
     ("Process", "Serializer", "PeripheralRegisterMap"))
prop("C42", "An interrupted operation leaves nothing behind",
     "If parsing, validating, processing, converting, serializing or mapping is interrupted at any point by an exception from outside (Ctrl-C, a signal handler that raises, lack of memory), the interruption reaches the caller, the device worked on is unchanged, and neither the same operation on it nor any other later gives a different result.",
     [CR, H], "every line of the library at its first executions x operations x documents x interruptions", "A test cannot interrupt an operation at a chosen point; state left in the module, in a class or in the input shows only in what comes after.",
     [PR, PA, RES, SE, MA, VA, XM], [("state held during an operation", RES), ("handlers that catch exceptions", XM)],
     ("Parser", "Process", "Serializer", "PeripheralRegisterMap", "Validator"))
prop("C43", "Warnings are messages and nothing else",
     "Whether warnings are shown, ignored, shown once or turned into errors decides no result: the devices, the written text, the map and the acceptance are the same for every filter but \"error\", under which the first warning is raised as it stands. All warnings are ParserWarning or ProcessWarning, have a text, and what is ignored is not shown.",
     [I, CFG], "every document of other spaces, documents with unknown or repeated elements and damaged ones x every filter of the warnings module", "Tests run under one filter; under another, a warning is an exception at a place that does not expect one, or does not come at all.",
     [PA, PR, XM, RES], [("reports of what is unknown or repeated", PA), ("reports of overlaps", PR), ("reports of recovered documents", XM)],
     ("Parser", "Process"))

TECH = {}


def main():
    sys.path.insert(0, HERE)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "mc/checks", i.lower() + ".py")):
            checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                           "technique": TECH.get(i, "explicit-state model checking of the real code: exhaustive enumeration of a bounded input space (choice-tree depth-first search), each case executed and compared with a reference model or invariant"),
                           "level": "model_checking",
                           "level_note": NOTE.get(i, "exhaustive within the stated bounds on the real implementation; nothing sampled; no claim beyond the bounds")})
        else:
            na.append({"property": i, "reason": "check not built yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
                   "notes": "Reports: evidence/<id>.json; replays: ./check --replay replays/<file>. See DESIGN.md."}, f, indent=1)
        f.write("\n")


NOTE = {}
TECH["C29"] = "explicit-state exploration of operation sequences on the real code, every sequence up to the depth, each result compared with the one in a fresh process"
TECH["C30"] = "stateless model checking of the real code: two threads under a controlled scheduler (line granularity), every schedule within the preemption bound"
TECH["C33"] = "exhaustive fault injection on the real code: every place x fault, every byte count at which the file system may fail"
TECH["C27"] = "exhaustive enumeration of crash points and torn or corrupted contents (every truncation, every single-byte corruption), each given to the real code"
TECH["C42"] = "exhaustive enumeration of interruption points (every line the operation executes) on the real code, with the operation and others repeated afterwards"
TECH["C28"] = "exhaustive enumeration of bounded documents and of the object graph of every result (reachability of shared mutable state), on the real code"
if __name__ == "__main__":
    main()
