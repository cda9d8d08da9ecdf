"""Writes properties.jsonl (one place to edit titles, statements and anchors)."""
import json
import os

PL = "pyangbind/plugin/pybind.py"
YT = "pyangbind/lib/yangtypes.py"
SE = "pyangbind/lib/serialise.py"
PJ = "pyangbind/lib/pybindJSON.py"
XP = "pyangbind/lib/xpathhelper.py"
BA = "pyangbind/lib/base.py"
IDH = "pyangbind/helpers/identity.py"

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": w} for n, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


prop("C01", "Bindings mirror the data tree of the YANG modules",
     "For every valid set of YANG modules the generated bindings import, and contain exactly the data nodes of the modules' effective schema (groupings, augments, submodules and the cases of choices applied; RPC input/output and notifications when requested), each once, where the schema puts it, under its YANG name with '-' and '.' turned into '_' and an underscore appended where the name is reserved. "
     "Every node reports its own YANG name, path, defining module and namespace, declared type, whether it is configuration, and for a list its keys, their order and whether users order it; only configuration nodes have a setter on the public attribute. "
     "This holds whatever the names, order and nesting of the definitions, including names that collide once converted in different places.",
     ["inputs"], "all valid module sets in the supported YANG subset, all generation flags",
     "The schema space is unbounded; the tests compile about fifty fixed modules, each around one feature, and never combine features or names.",
     [PL, IDH, YT], [("module to class generation", PL + " build_pybind, get_children, get_element"),
                     ("name conversion", YT + " safe_name"), ("class naming", PL + " get_children")])

prop("C02", "Equivalent modules and output layouts give equivalent bindings",
     "Rewriting modules without changing their meaning (putting definitions in another order, expanding a grouping where it is used, moving definitions into a submodule, changing prefixes, giving an inline type a typedef name, adding statements that only document or constrain data or writing strings in another way) leaves the bindings equivalent: the same nodes, metadata apart from the type name, accepted and rejected values, defaults and serialised data. "
     "Writing the bindings to one file or to a directory of classes also gives equivalent bindings. "
     "Generating twice from the same input gives the same text.",
     ["inputs", "configurations"], "all module sets and all meaning-preserving rewrites of them; both output layouts",
     "A metamorphic relation over pairs of schemas; the tests have no pair of equivalent modules and check one small split layout.",
     [PL, IDH], [("typedef, identity and grouping resolution", PL + " build_typedefs, build_identities"),
                 ("output of one file or a directory", PL + " get_children")])

prop("C03", "Numeric leaves take exactly the values of their YANG type",
     "An integer leaf takes a value exactly when it lies within its built-in size and within every range restriction on the way through its typedefs (several intervals, single values, min and max included), given as a number or in decimal notation, and reads back as that number. "
     "A decimal64 leaf takes exactly finite decimal values within every range, and within the 64-bit limits for its fraction-digits, and reads back as that value rounded to the precision of its fraction-digits. "
     "Everything else is refused with ValueError.",
     ["inputs"], "all integer and decimal64 types with any chain of restrictions; all values",
     "Off-by-one and precision faults sit at individual bounds of individual restriction chains; the tests sample a handful of them.",
     [YT, PL], [("restricted classes", YT + " RestrictedClassType"), ("decimal64", YT + " RestrictedPrecisionDecimalType"),
                ("restriction chains", PL + " build_elemtype")])

prop("C04", "String and binary leaves enforce every length and pattern",
     "A string leaf takes a value exactly when its number of characters satisfies every length restriction and the entire value matches every pattern, over all restrictions on the way through its typedefs; it reads back unchanged. "
     "A binary leaf takes bytes, or their base64 text, exactly when the number of bytes satisfies every length restriction, and reads back as the same bytes. "
     "Everything else is refused with ValueError.",
     ["inputs"], "all string and binary types with any chain of length and pattern restrictions; all values",
     "Anchoring, escaping and chain faults need a value that matches one pattern or length but not another; fixed tests hold few such pairs.",
     [YT, PL], [("restricted classes", YT + " RestrictedClassType"), ("binary", YT + " YANGBinary"),
                ("restriction chains", PL + " build_elemtype")])

prop("C05", "Enumeration, identityref, bits, boolean and empty take exactly their names",
     "An enumeration leaf takes exactly its enum names; an identityref leaf exactly the identities derived, directly or not and in whichever module, from its base, written plainly, or with its module's name or a prefix that module has or is imported with; a bits leaf exactly sets of its bit names, in any order. "
     "Booleans and empty take true and false. Values read back as the name, and bits in order of their positions, which are assigned as YANG does where they are not given; anything else is refused with ValueError.",
     ["inputs"], "all enumerations, identity graphs over several modules, bits types and boolean leaves; all values",
     "Identity derivation is a graph closure across modules and prefixes, and automatic numbering depends on every earlier statement; tests use two or three fixed shapes.",
     [YT, PL, IDH], [("identity closure", IDH + " build_store_from_definitions"), ("enumeration and identity dictionaries", PL + " build_elemtype"),
                     ("bits", YT + " YANGBits"), ("boolean", YT + " YANGBool")])

prop("C06", "Unions and typedefs take exactly what their members and bases take",
     "A union takes a value exactly when one of its members takes it, unions nested directly or through typedefs included, and holds it as the first such member would; otherwise it is refused with ValueError. "
     "A typedef takes exactly what its definition takes with all restrictions added along the chain, whichever module or submodule defines it and whatever other definitions have the same name.",
     ["inputs"], "all unions over the supported types, nested, in leaves and leaf-lists; all typedef chains over several modules",
     "Member order and restriction chains combine without bound; the tests hold a few flat unions.",
     [YT, PL], [("union types", PL + " build_elemtype"), ("choosing a member", YT + " YANGDynClass"),
                ("typedefs", PL + " build_typedefs")])

prop("C07", "Leaves that are not set have the default of their schema",
     "A leaf with a default, its own or else that of the nearest typedef of its type, has that default, converted to its type as if it had been set, as its default and in unfiltered output while it is not set; a leaf without one has no default. "
     "A default never counts as set: it is absent from filtered output, is replaced by any value set, and is back after the value is unset. "
     "This holds for every type and for falsy, negative, quoted and non-ASCII defaults.",
     ["inputs", "histories"], "all defaults of all types, on leaves and typedefs, in several modules; set and unset sequences",
     "The default passes through generated source text, so each type and each odd character is its own path; the tests fix one default per type.",
     [PL, YT], [("writing defaults", PL + " get_element"), ("typedef and union defaults", PL + " build_elemtype, find_absolute_default_type"),
                ("default handling", YT + " YANGDynClass")])

prop("C08", "A refused write raises the documented error and changes nothing",
     "Writing a value its type refuses raises ValueError, also for a container or list replaced by something else; an attribute the schema does not have, a read-only (config false) node, or the key of an existing list entry raises AttributeError. "
     "After any refused write the whole tree, including what counts as changed, list and leaf-list contents, presence and the choice of case, is as before.",
     ["inputs", "histories"], "all histories of accepted writes followed by any refused one, anywhere in the tree",
     "Atomicity is about the state after a failure at an arbitrary point; tests only assert that an exception was raised.",
     [PL, YT], [("setters", PL + " get_children"), ("type checks", YT + " YANGDynClass, RestrictedClassType, TypedListType, YANGListType")])

prop("C09", "The tree reports exactly what was set, with the last value",
     "After any history of setting, unsetting, adding and deleting through attributes, setter methods or the containers' get-item and iteration interfaces, every node reads back the last value given to it and reports being changed exactly if it was set and not unset since. "
     "Filtered output contains exactly the data that was set (and present presence containers), unfiltered output every node of the schema; unsetting a container or list discards everything below it.",
     ["histories"], "all histories of operations over generated schemas, observed after each operation",
     "Tracking is spread over wrappers for each kind of node, so faults show only for specific sequences across kinds; tests use short scripts per kind.",
     [PL, YT, BA], [("change tracking", YT + " YANGDynClass, _set, _unset, _mchanged"), ("get", BA + " get")],
     [("changed flags", YT + " _mchanged"), ("presence", YT + " _cpresent")])

prop("C10", "At most one case of a choice holds data",
     "Setting any node of a case (a leaf, a leaf-list element, a list entry, a presence container, or anything below a container or list) removes all data of the other cases of that choice, and of every choice that encloses it, and nothing else. "
     "This holds for choices at the top of a module, in containers and lists, from groupings and augments, for shorthand cases, and for choices nested in cases.",
     ["histories"], "all histories of writes over all nestings of choices",
     "Exclusion must act at every depth below a case and over nested choices; tests cover one or two fixed nestings.",
     [PL, YT], [("unsetting other cases", YT + " YANGDynClass unset_other_cases"), ("choice of a node", PL + " get_children")])

prop("C11", "Presence containers keep whether they exist apart from their content",
     "A presence container is absent at first, becomes present when it is explicitly marked present or anything below it is set, and absent again when marked so or unset; it reports a change while it is marked present, and none once it is marked absent; other containers never report presence. "
     "Each serialisation includes a present container even when it is empty and leaves out an absent one, and loading restores the same presence.",
     ["histories", "inputs"], "all histories over presence containers nested with containers, lists and choices; all three encodings",
     "Presence propagates upwards from any descendant and through the encoders; the tests exercise one level by hand.",
     [YT, BA, SE], [("presence", YT + " _set_present, _present"), ("output", BA + " get"), ("IETF output", SE + " make_generate_ietf_tree")],
     [("presence flag", YT + " _cpresent")])

prop("C12", "Lists behave as maps keyed by their key leaves",
     "After any sequence of additions (by key, keyword arguments, entry object or keyed access where offered), deletions and edits, a list contains exactly the entries added and not deleted, in order of addition, each found under its key with its key leaves equal to the key; multi-part keys follow the order of the key statement. "
     "Adding a key that exists or that a key leaf refuses, and getting or deleting one that does not exist, raises KeyError and changes nothing; key leaves of an entry cannot be changed.",
     ["histories"], "all operation sequences over lists with one to three keys of any supported key type, nested lists included",
     "A map law over unbounded histories; the tests run fixed add/delete scripts on a few key types.",
     [YT, PL], [("lists", YT + " YANGListType")], [("members", YT + " YANGListType _members")])

prop("C13", "Leaf-lists behave as ordered sets of valid values",
     "A leaf-list holds its values in order with no value twice; append, extend, insert, deletion, removal, pop, whole replacement and unset act as on a list, except that an appended duplicate is ignored, an inserted one refused, and assignment to an index inserts there. "
     "A value the element type refuses raises ValueError whichever way it is given, and a refused operation leaves the contents as they were; elements read back as values of the element type.",
     ["histories"], "all operation sequences over leaf-lists of every supported type",
     "Uniqueness after conversion and atomic replacement depend on the order of operations and the type; the tests run one script for strings and a few types.",
     [YT], [("typed lists", YT + " TypedListType")], [("elements", YT + " TypedListType _list")])

prop("C14", "The default JSON encoding round-trips",
     "Dumping any tree in the default JSON encoding and loading it into new bindings restores the same data: the same nodes set, equal values, the same entries with user-ordered lists in the same order, the same presence. "
     "The text is valid JSON keyed by YANG names, lists as objects keyed by key, with numbers, booleans and strings as JSON has them; neither dumping nor loading changes its input.",
     ["inputs", "histories"], "all reachable data trees over generated schemas",
     "Round trips quantify over all types, names and values; the tests compare a few fixed documents.",
     [SE, PJ, BA], [("encoder", SE + " YangDataSerialiser, pybindJSONEncoder"), ("decoder", SE + " load_json"), ("dumps, loads, load, dump", PJ)])

prop("C15", "The IETF JSON encoding follows RFC 7951 and round-trips",
     "The IETF encoding of any tree has lists as arrays of objects in order, 64-bit integers and decimals as strings, other numbers, booleans and strings as such, empty as [null], identities of another module prefixed with its name, and names prefixed with the module exactly where the namespace differs from the parent's. "
     "Loading that text, or the same data with any name fully prefixed, into new bindings restores the same data; neither dumping nor loading changes its input.",
     ["inputs", "histories"], "all reachable data trees over generated multi-module schemas",
     "Encoding rules per type, at every level and across augmenting modules; the tests compare a few fixed documents.",
     [SE, PJ], [("encoder", SE + " IETFYangDataSerialiser, make_generate_ietf_tree"), ("decoder", SE + " load_ietf_json")])

prop("C16", "The XML encoding is well-formed, namespaced and round-trips",
     "The XML encoding of any tree is well-formed, has one element per leaf, leaf-list value, list entry and container that holds data, named and nested as in the schema, each in the namespace of its module, with the text of the value and with keys included; elements are laid out on lines of their own only where pretty_print is set. "
     "Decoding it into new bindings restores the same data, strings that look like numbers included.",
     ["inputs", "histories"], "all reachable data trees over generated multi-module schemas, with text XML can represent",
     "Escaping, type guessing and namespaces depend on the values; the tests compare a few fixed documents.",
     [SE], [("encoder", SE + " pybindIETFXMLEncoder, XmlYangDataSerialiser"), ("decoder", SE + " pybindIETFXMLDecoder")])

prop("C17", "Dump options select exactly the data they describe",
     "Filtered dumps contain exactly the data that was set, unfiltered ones also defaults and unset nodes, and dumps with defaults requested 'if set' everything explicitly set even when equal to its default; skipped subtrees are absent and nothing else is; selecting list entries keeps exactly those whose named leaves equal the given values. "
     "Dumping to a file writes the same text as dumping to a string, and dumping never changes the data.",
     ["inputs", "configurations"], "all reachable data trees with any combination of the dump options",
     "The options act on arbitrary trees and paths; the tests check a few fixed combinations.",
     [PJ, SE, BA], [("dump options", PJ + " dumps, dump, remove_path"), ("defaults handling", SE + " make_generate_ietf_tree")])

prop("C18", "Loading onto existing data merges or overwrites as asked",
     "Loading JSON of either encoding onto an existing object (a module, container or list entry) sets exactly what the document contains and leaves other data as it was; a leaf-list in the document is replaced, list entries are merged by key. "
     "With overwrite, each top-level container or list in the document ends up with exactly the document's content. Unknown names raise AttributeError, or are skipped, and nothing else with them, when that is requested; loading never modifies the caller's data.",
     ["inputs", "histories"], "all pairs of an existing tree and a document over generated schemas, in both encodings and modes",
     "A relation between two arbitrary trees; tests load one fixed document into one fixed state.",
     [SE, PJ], [("load_json", SE), ("load_ietf_json", SE), ("loads, load, loads_ietf, load_ietf", PJ)])

prop("C19", "The path helper finds exactly the nodes that exist",
     "With a path helper, after any history of operations a lookup by the path of an existing node returns that very object, a lookup of a list without keys returns its entries, and a lookup of a deleted entry, or of anything under it, returns nothing. "
     "Values with characters such as '/', ':' and spaces in keys are found too, list entries match on each key, and lookups for unique nodes or lists raise their error exactly when there is not one match.",
     ["histories"], "all histories of operations on bindings registered with a path helper; all paths of existing and deleted nodes",
     "The registry is a second copy of the tree that each operation must maintain; the tests look up a few paths after short scripts.",
     [XP, YT, PL], [("registry", XP + " register, unregister, get"), ("registration by nodes", YT + " YANGListType, YANGDynClass")],
     [("registry", XP + " _library, _root")])

prop("C20", "Leafrefs take exactly the values that exist where they point",
     "With a path helper, giving a value to a leafref that requires an instance (the default) succeeds exactly when a leaf or an element of a leaf-list at its path holds that value at that time, whether the path is absolute or relative to the leafref, prefixed or not, leads through one or many list entries, or has [key = current()/../leaf] predicates; otherwise ValueError is raised (KeyError when it is the key of a new list entry) and nothing changes. It reads back, and is output, as the text of that value, also when the value is removed later. "
     "A leafref that does not require an instance, or any leafref without a path helper, takes any value. A leafref whose path leads to exactly one leaf that is not a list key is a pointer: setting it sets that leaf, subject to its type, and it reads as what that leaf holds. "
     "Each element of a leaf-list of leafrefs, which holds a value once, list keys that are leafrefs and leafrefs to other leafrefs follow the same rules.",
     ["histories"], "all histories of writes to targets and leafrefs over generated path shapes",
     "Validity depends on the state of another part of the tree at the time of each write; the tests use one fixed model.",
     [YT, XP, PL], [("leafref type", YT + " ReferencePathType"), ("path resolution", XP + " _encode_path, get"), ("paths of leafrefs", PL + " build_elemtype")])

prop("C21", "Extension methods and extension data are attached to the right nodes",
     "With extension methods enabled and given by path, every node with such a path (each list and each of its entries, containers, leaves and leaf-lists, also after they are set again, and in documents that are loaded) has each public method of the object given there under its name with a leading underscore. "
     "The method gets the arguments of the call, the node's own path (as _path() gives it) as 'caller', and its path helper, and its result is returned; no other node has it, and without them none has. "
     "_extensions() of a node gives {module: {extension: argument}}, with None for no argument, for exactly the extensions that its statement uses of the modules asked for (and their submodules), on a list and its entries alike, and None where there are none.",
     ["inputs", "configurations"], "all generated schemas, sets of paths with methods, and extension uses",
     "The lookup is by path at every level of an arbitrary tree; tests attach one method to one node.",
     [YT, PL], [("extension methods", YT + " YANGDynClass"), ("extension data", PL + " get_children")])

prop("C22", "Separate instances of bindings share no state",
     "Operations on one instance of a class of the bindings, or on one list entry, never alter another instance or entry, or the class: a new instance is always empty, with its schema's defaults. "
     "Assigning a container, list, leaf-list or leaf of one tree to the same node of another, giving an object as a list entry (under the key it is given for), and making a module from another instance, store exactly the data that the object held; "
     "they store a copy, so that changing either side afterwards, or a Python list that was given, leaves the other as it is.",
     ["histories"], "all interleavings of operations over several instances, entries and list objects",
     "Sharing shows only when two objects are changed in turn; the tests use one instance each.",
     [YT, PL], [("dynamic classes", YT + " YANGDynClass"), ("list entries", YT + " YANGListType"), ("constructors", PL + " get_children")])

prop("C23", "Annotations of IETF JSON are kept with the nodes they annotate",
     "When IETF JSON is loaded, each annotation in it, by an '@' member in a container or an entry of a list or by a member '@name' next to the container or leaf that it annotates (keys of entries included), is in the _metadata of that node, and of no other, with its value unchanged. "
     "This holds for every order of the members, with their names prefixed or not, and for values of any JSON type. "
     "Annotations do not change the data that is loaded, cause no error (those of elements of leaf-lists, which have nowhere to be kept, neither) and are not part of what the nodes output. "
     "Loading onto nodes that have annotations keeps those of containers, entries and keys, except where the new ones have the same name.",
     ["inputs"], "all documents of all data trees, with annotations of any of their nodes",
     "A test loads one annotated document; what an annotation does depends on the kind of the node, the place and the order of members.",
     [SE, YT], [("reading of '@' members", SE + " pybindJSONDecoder.load_ietf_json, check_metadata_add, ietf_key_value"),
                ("where they are kept", YT + " _add_metadata, _metadata")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
