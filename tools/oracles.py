"""What each property is judged against (for DESIGN.md)."""
M = "comparison of the complete processed device and its warnings with the reference model (`mc/model.py`), "
ORACLE = {
    "C01": "the relation itself (every permutation of siblings gives an equal device, or all are rejected) and " + M + "on every document.",
    "C02": M + "which takes each attribute from the element, else from its base.",
    "C03": M + "each candidate element carries a description of its own, so that the result shows which one was taken.",
    "C04": M + "acceptance and rejection; a CPU limit per document decides termination; a rejection is repeated.",
    "C05": M + "which expands templates by arithmetic on indices and labels.",
    "C06": M + "acceptance and rejection of every dim declaration; a grammar of dimIndex decides.",
    "C07": M + "for bases and derived elements that are templates or instances.",
    "C08": M + "nearest setting on the way to the root, else the default of the format.",
    "C09": M + "sizes as the maximum over the widest register inside.",
    "C10": M + "and relations that hold without model: base plus offset, ends within the parent, size = end - base + 1.",
    "C11": M + "order of lists, and the flattened view against a walk of the tree.",
    "C12": M + "expansion of patterns by enumeration of all values of the field.",
    "C13": M + "containers and their values by field.",
    "C14": M + "and agreement of the notations with one another.",
    "C15": M + "which compares bit sets of fields that can be read / written.",
    "C16": M + "acceptance and rejection by the multiset of names per scope.",
    "C17": M + "the set and number of reported pairs by pairwise comparison of extents and the closure of alternates.",
    "C18": M + "every element is in the result or named by a warning or exception.",
    "C19": "the table of the format (`mc/pm.py`) and a regular grammar of literals: value or rejection of every text.",
    "C20": "the table of the format (`mc/pm.py`): plain data of the parsed device, attribute by attribute, and the links to the containing element.",
    "C21": "the relation itself: parse(serialize(d, options)) = d for all options, target text, bytes, file; serializing again gives the same bytes; d is unchanged.",
    "C22": "libxml2 with the published schemas: a document valid under a version stays valid under it after parsing and serializing.",
    "C23": "the relation itself: process(convert(process(d))) = process(d), directly and through a file; and the schema in mc/schema (libxml2) on the document and on what is written.",
    "C24": "libxml2 with the published schemas of all versions (an independent copy), for each entry point and default.",
    "C25": "a map built by the check from the processed device, register by register.",
    "C26": "the relation itself: equal results and equal warnings for bytes, text and file in every encoding; the plain ASCII form is the reference.",
    "C27": "expat decides well-formedness; what is not well-formed must raise or be reported by a warning, and nothing may be made up.",
    "C28": "reachability of mutable objects: the object graphs of parsed, processed and converted devices share nothing, siblings share nothing; input equal before and after.",
    "C29": "each result equals that of the same call in a process that did nothing else.",
    "C30": "each thread's result under every schedule equals its result alone.",
    "C31": "the relation itself: the result with a log equals that without; the log exists, is complete, and is well-formed HTML naming the elements.",
    "C32": "defaults of the format written down in the check, for the processed and the converted device.",
    "C33": "every fault raises, the previous file is intact, and no partial output passes for a complete one.",
    "C34": "the relation itself: ==, copies and representation agree with a walk over the plain data of both objects.",
    "C35": M + "and a CPU limit per document.",
    "C36": "the relation itself: process(rename(d)) = rename(process(d)), process(move(d)) = move(process(d)), also for rejection and number of warnings.",
    "C37": "the relation itself: process(d + addition) without the addition = process(d); a clone equals its original up to name and distance.",
    "C38": "the type of the exception: none of the interpreter's own for programming errors.",
    "C39": M + "on documents that use several features at once.",
    "C40": "The kernel's record of every file the document names being opened or read (inotify) and a listening socket: both stay silent, and the secret text of those files is not found anywhere in the result; a time and size bound for multiplying entities. The observer is tested at the start of every run by reading a file and opening a connection itself.",
    "C41": "the relation itself: the result of the parsed device is the reference for every device equal to it.",
    "C42": "the results of the uninterrupted operation in the same process, the plain data of the input before, and the interpreter's settings.",
    "C43": "the relation itself: the results under the filter that shows everything; the first warning shown is the one raised as an error.",
}
