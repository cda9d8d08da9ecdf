"""Writes known_findings.json: defects repaired in /repo (status "fixed") and any recorded ones (status "known").

Reproductions are cases of the checks' own format (see tools/repros.json)."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ("C05", "d87834b", "positions of bits that do not state one were assigned as text, so that they could repeat or sort wrongly"),
    ("C06", "b4cbddb", "a union written directly inside a union made the plugin fail"),
    ("C06", "e24c44d", "typedefs and identities of the same name in different modules were confused"),
    ("C07", "6706087", "the default of a union was only tried against some of its members"),
    ("C07", "46d95ca", "the default of a typedef was lost when another typedef was derived from it"),
    ("C07", "e852567", "defaults and descriptions with quotes, backslashes or newlines broke the generated bindings"),
    ("C07", "30657c1", "the default of a typedef derived from bits was refused or lost"),
    ("C07", "e9eb1d6", "decimal64 defaults went through a float and lost digits"),
    ("C07", "2155e65", "defaults that are zero, false or empty were dropped"),
    ("C07", "04c181a", "an empty default of a typedef that is a union was dropped"),
    ("C04", "6601707", "only one of several patterns was enforced, alternatives and trailing newlines escaped the anchoring"),
    ("C04", "df35d7d", "the length of a binary was checked on its base64 text"),
    ("C04", "6382868", "of several restrictions added to a type that is restricted already only one had to hold"),
    ("C03", "adb6966", "single values in ranges of large integers were compared as floats"),
    ("C03", "c9212e9", "invalid decimal64 values raised decimal.InvalidOperation, and NaN, infinities and values beyond 64 bits were accepted"),
    ("C03", "56363ae", "values that cannot be converted at all, such as an empty list, were accepted as zero"),
    ("C03", "11bb2f2", "text that is not a number raised decimal.InvalidOperation for a decimal64 with a range"),
    ("C05", "a8d2915", "enums without a value were not numbered from the highest value before them"),
    ("C13", "13db233", "bits were refused in leaf-lists and from sets of names; pop did not return the element"),
    ("C13", "686beea", "leaf-lists could hold the same value twice when it was given in another form"),
    ("C15", "0f7f5dc", "64-bit integers with a restriction were encoded as numbers rather than strings in IETF JSON"),
    ("C10", "e7ba554", "choices nested in cases, choices at the top of a module and lists within cases were not enforced"),
    ("C01", "fbfda4d", "nodes named after keywords or methods of the generated classes made bindings that do not import or work"),
    ("C01", "6e2dd65", "nodes with paths such as /a/b/c and /a.b/c shared one class"),
    ("C17", "d7c8f33", "with defaults 'if set', data that was not set was included"),
    ("C18", "58b7138", "loading removed the ordering metadata from the caller's data"),
    ("C18", "722a68c", "overwrite did not replace all of the contents of containers and lists"),
    ("C18", "818797b", "skipping unknown names did not extend to lists in IETF JSON"),
    ("C16", "44fecee", "the XML decoder changed strings such as 007 to numbers, and dropped empty strings"),
    ("C15", "76a8695", "identities were left with a YANG prefix, or without any, in IETF JSON"),
    ("C08", "7f8465b", "a refused write to a leaf or leaf-list had already marked its parents as changed and emptied other cases"),
    ("C08", "8cadc02", "containers without elements took any attribute and any value"),
    ("C08", "250a1d6", "a list set to something else was silently emptied, and copying a container lost its lists"),
    ("C08", "f98afb8", "adding an entry with an invalid key emptied other cases and marked presence containers"),
    ("C08", "0688da0", "an empty string raised decimal.InvalidOperation for a decimal64 with a range"),
    ("C19", "eaa4bd2", "the path helper did not find entries whose keys have spaces, quotes, brackets or carets"),
    ("C19", "73aca62", "replaced, unset and deleted nodes stayed in the path helper"),
    ("C19", "f94596e", "lists whose key leaf has a dot in its name could not be used with a path helper"),
    ("C14", "24c6a00", "booleans in leaf-lists were encoded as 0 and 1, and binaries in leaf-lists and unions could not be encoded"),
    ("C14", "4b9f7ec", "leaf-lists of decimals, binaries and bits were emptied when loading default JSON"),
    ("C15", "ad01e79", "typedefs of empty and identityref, and identities in leaf-lists and unions, were not encoded as such in IETF JSON and XML"),
    ("C15", "145417e", "list entries whose key members have a module prefix could not be loaded, boolean keys were kept as True and False"),
    ("C15", "30454bf", "a leaf-list that was emptied again was included in filtered IETF JSON"),
    ("C15", "b8b9e0a", "small decimals were written with an exponent in IETF JSON and XML"),
    ("C16", "014d52a", "leaves of a typedef of empty had the text true in XML"),
    ("C16", "aad567b", "booleans in leaf-lists were written as True and False in XML"),
    ("C16", "f554c4d", "the prefix an identity was written with was not declared when its namespace was the default of an outer element"),
    ("C15", "d08f1d4", "text of unions with an empty or identityref member was changed or refused when decoding IETF JSON and XML"),
    ("C12", "1112c4b", "lists with several keys, one of which has a reserved name, could not be used"),
    ("C18", "44f8489", "IETF JSON [] did not replace a leaf-list or overwrite a list, and was accepted for unknown names"),
    ("C18", "4270b83", "empty lists in default JSON, as in unfiltered dumps, could not be loaded"),
    ("C18", "9632c0c", "an entry added by a number was duplicated when loading a document with the text of its key"),
    ("C17", "b17430b", "skipped subtrees stayed in IETF JSON and below lists, and selecting by leaves of another module failed"),
    ("C17", "08a041c", "64-bit integers and booleans were wrongly encoded when a list itself was dumped as IETF JSON"),
    ("C17", "211842f", "emptied leaf-lists were included in unfiltered IETF JSON with defaults if set"),
    ("C17", "bfb94a5", "unfiltered IETF JSON and XML had zero values instead of the defaults of leaves that are not set"),
    ("C08", "bfe00dc", "the data nodes of a choice that is config false could be written"),
    ("C01", "5d45b49", "operations and notifications took any attribute"),
    ("C08", "84b290c", "entries of keyless lists took any attribute"),
    ("C01", "571fb2a", "nested split classes whose names have dots or reserved words could not be imported"),
    ("C01", "fca1f73", "a node named like a variable of the generated code (base, re, six ...) broke split classes"),
    ("C01", "95635bd", "split classes of two modules with top-level nodes of the same name were mixed up"),
    ("C06", "960c645", "typedefs that follow an augment of a uses statement were not found"),
    ("C19", "1911368", "adding entries of keyless lists, or of lists in operations, failed with a path helper"),
    ("C22", "b9a36dd", "a container with leaf-lists could not be assigned, or got the text of the leaf-list as an element"),
    ("C19", "2eb6449", "a container or list that was refused replaced what the path helper finds"),
    ("C22", "f581850", "the lists of a container that is assigned were lost"),
    ("C19", "7f7cdcf", "the root of a path helper held deleted entries, and only one entry, of lists at the top of a module"),
    ("C20", "205296f", "a list entry whose leafref key was refused stayed in the path helper"),
    ("C20", "2621831", "values were not found in, and could not be removed from, leaf-lists of leafrefs"),
    ("C20", "14cd234", "leaf-lists of leafrefs held values more than once"),
    ("C20", "c42bb8c", "leafrefs took the zero values of unset leaves, and refused values in leaf-lists of several list entries"),
    ("C20", "752e30b", "a predicate on an unset leaf selected the entry with the zero value of its type"),
    ("C20", "e5f7f1a", "a leafref to the pointer key of an entry could not be read once the entry was deleted"),
    ("C21", "cfc1aa4", "extensions used within submodules of their module were not recorded"),
    ("C21", "c941150", "statements that are not extensions were recorded as such"),
    ("C21", "58c85b1", "an extension method named method hid the others"),
    ("C10", "3316903", "changing the bits of a leaf by methods of a set took any name, and did not empty other cases, mark presence or, with some, the leaf"),
    ("C10", "edff2a2", "bits could not be removed from a leaf with a path helper"),
    ("C10", "0324ac5", "choices of one name that different modules add to a node were taken for one"),
    ("C16", "c9f47ae", "the XML document of a container that another module adds was in the wrong namespace"),
    ("C01", "eb9509e", "nodes with names such as _parent or OrderedDict broke the bindings"),
    ("C01", "31d7c3d", "containers with names such as Decimal or hasattr broke the bindings in split classes"),
    ("C04", "18a4c45", "text that is not in base64 was taken for a binary"),
    ("C20", "dbeec86", "whitespace in the predicates of the path of a leafref broke the bindings"),
    ("C01", "4c99924", "a namespace with a quote broke the bindings"),
    ("C19", "dc8f140", "entries with keys that hold the text current() could not be registered or looked up"),
    ("C23", "516b4f2", "a document with metadata of the elements of a leaf-list could not be loaded"),
    ("C23", "ea8e7c9", "metadata of the key of an entry, with the name of the module, was taken for the key"),
    ("C16", "bfe371d", "XML with processing instructions could not be decoded"),
    ("C03", "202c282", "range and length statements with tabs or newlines broke the bindings or were misread"),
    ("C03", "df27b7c", "the fraction-digits of a decimal64 with a range were ignored"),
    ("C03", "86e6dcb", "a part of a range or length that is min or max alone broke the bindings"),
    ("C13", "5223f68", "extending a leaf-list of a union converted the values twice, so that one could change its type"),
    ("C15", "c482449", "entries of a list with several keys were merged when these differed in a space at the end, or refused when loaded again"),
    ("C14", "d23afc7", "entries with a space in one of several keys could not be loaded from JSON, nor be copied or appended"),
    ("C16", "3e0db75", "encoding a presence container without children to XML failed"),
]
KNOWN = []


def main():
    path = os.path.join(here, "tools", "repros.json")
    repros = json.load(open(path)) if os.path.exists(path) else {}
    out = []
    for prop, commit, what in FIXED:
        e = {"property": prop, "id": "%s-%s" % (prop, commit), "status": "fixed", "commit": commit,
             "what": "fixed: property=%s %s %s" % (prop, commit, what)}
        if e["id"] in repros:
            e["case"] = repros[e["id"]]
        out.append(e)
    for k in KNOWN:
        out.append(dict(k, status="known", case=repros[k["id"]]))
    with open(os.path.join(here, "known_findings.json"), "w") as f:
        json.dump({"findings": out}, f, indent=1, sort_keys=True)
        f.write("\n")
    print(len(out), "findings,", sum("case" in e for e in out), "with a reproduction")


main()
