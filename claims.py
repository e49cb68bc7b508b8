ENGINE = "static analysis: abstract interpretation of SSA from every request start state (burlcheck)"
CLAIMS = {
    "C01": (ENGINE + "; typestate of the outgoing buffer and writer, forking every write into success and failure",
            "codec types are found by type; header value, byte order and completeness of the payload are followed as terms; encoding/json and io are modelled by their contracts"),
    "C02": (ENGINE + "; typestate of the incoming frame (header read, limit checked, rest skipped) over all call sequences of the codec",
            "histories of codec calls are covered by iterating its methods from every reachable codec state"),
    "C03": (ENGINE + "; table of public names against registered services and the operations their handlers reach",
            "names are constant terms collected from the method table; net/rpc dispatch is modelled by its documented contract"),
    "C04": (ENGINE + "; field sets, tags and kinds of encoded types, and abstract interpretation of MarshalJSON of each tree node",
            "encoding/json is modelled by its documented tag rules; reflection loops in the tree encoder are interpreted per field; the shape is compared with the protocol table"),
    "C05": (ENGINE + "; taint of the standard output from its sources to writers reachable while serving, and typestate of the log destination",
            "writers are printing functions, log output, methods of files, and output fields of child processes; what a child does with inherited descriptors is not followed"),
    "C06": (ENGINE + "; dominance of every editor start by an equality test of the path with a configured source",
            "every path from the RPC dispatcher to exec.Cmd is interpreted; calls outside the module are modelled by effect summaries"),
    "C07": (ENGINE + "; taint of request data into the argument vector with string-prefix facts",
            "os/exec passes arguments as whole words; program name, options and Lisp code must be free of request terms"),
    "C08": (ENGINE + "; typestate of editor commands and error propagation on all outcomes",
            "success outcomes require all command errors known nil and the confirmation text known"),
    "C09": (ENGINE + "; points-to analysis separating start, one-time loading and handling of requests, with an effect rule for writes",
            "Inclusion based and flow insensitive, call strings of length 2; library functions are described by a table of writers; reads of files changed meanwhile are out of scope."),
    "C10": (ENGINE + "; typestate of sync.Once initialisation and use of its results",
            "uses of the loaded tree must be dominated by the completed one-time load and a nil test of its error"),
    "C11": (ENGINE + "; interpretation of readers with every failure and end of data, counters of sources",
            "Scanners of the library, os.Open and interface calls of sources are modelled; the data itself is not. Reading of stdin more than once is not considered."),
    "C12": (ENGINE + "; ghost counters prove that all URLs, links and children are handled by the loops",
            "loop invariants 'the first g elements are handled' in a zone domain; filters interpreted for an arbitrary link"),
    "C13": (ENGINE + "; safety obligations (nil, bounds, sizes, overflow, exits) that depend on the request",
            "all paths of the published operations; numbers of requests are followed through fields; decoding by the standard library and reading of files are not analysed"),
    "C14": (ENGINE + "; combinations of structures merged by the interpreted encoder, and non-nil proof of merged parts at every place where a node is added to a tree",
            "encoding/json and reflect are modelled by their contracts; nodes read from existing trees are taken as proved where they were created"),
    "C15": (ENGINE + "; interpretation of the outline extractor with lengths of its stacks of headings and nodes (zone domain)",
            "Requires lists of pointers to headings and nodes; other representations of the outline are reported as not recognized. Levels are taken from a pattern of headings."),
    "C16": (ENGINE + "; interpretation of extractors with a counter of lines read",
            "Text of a link is not tied to the line: carrying text over to a later line is not noticed. Lines must be read by bufio."),
    "C17": (ENGINE + "; typestate of the target path over all outcomes of file operations, finite evaluation of permission bits",
            "existence and content checks must dominate every change of the target; the overwrite switch is traced to the -force option"),
    "C18": (ENGINE + "; typestate of temporary file and target over all outcomes of file operations",
            "every return of the writing function is classified by ghosts; os and io functions are modelled by their contracts, fsync is not considered (C36)"),
    "C19": (ENGINE + "; ghost counters over lists of options and sources, provenance of words of the stored command, exploration of states of multi-valued options",
            "all combinations of options at the places where wrappers and manifests are written; filepath and flag functions are modelled by their contracts"),
    "C20": (ENGINE + "; decomposition of the written text into constant and variable parts, shell lexer over the constant parts",
            "all paths to the writing of a wrapper; accepted quoting idioms are replacement of every single quote between single quotes"),
    "C21": (ENGINE + "; facts that dominate the encoding and the writing of a manifest",
            "all paths to the writing of a manifest for all combinations of options; filepath and json functions are modelled by their contracts"),
    "C22": (ENGINE + "; abstract interpretation of pattern construction with comparison of syntax trees of patterns having placeholders as variable parts",
            "All patterns compiled from variable texts are considered; correctness of the constant parts of patterns is out of scope."),
    "C25": (ENGINE + "; interpretation of main of the query tool, provenance of printed values, error propagation to the exit status",
            "all paths of main are covered; the filter is interpreted for an arbitrary link"),
    "C23": (ENGINE + "; dominance of file reads by limit, switch and prefix language checks (regular language inclusion)",
            "prefix validation is decided by inclusion of the accepted regular language in the scheme form"),
    "C24": (ENGINE + "; contents of the reply list against the configuration facts of the path",
            "all configurations are covered by the flag cells of main"),
    "C26": (ENGINE + "; typestate of files, processes, connection ends and the log file, with every acquisition and release forked into success and failure",
            "os/exec pipes are released by exec.Cmd itself according to its contract; file descriptors inherited by children are not followed"),
    "C27": (ENGINE + "; interpretation of main from option registration till serving and of handlers that run the editor, provenance of lists, counters of list elements, typestate of the log destination",
            "All command lines are covered. Methods Set are assumed to keep the pointer to their list; how text patterns are composed of schemes is decided by C22."),
    "C28": (ENGINE + "; matches of link patterns counted and followed till they are collected, provenance of collected URLs, provenance of conditions that drop a match",
            "All files and filters are covered. What the regular expressions match is decided only in part (C22); words after the first one of a line of a plain text file are assumed to be reached by the standard word splitter. Distinctness of positions in the reply list is not decided."),
}
NA = {
    "C30": "the value computed by the dynamic programming recurrence over arbitrary strings is a functional-correctness claim; no dataflow, typestate or effect argument decides it",
    "C31": "optimality and order of the kept results depend on runtime distances and on heap operations over them; no sound static argument in reach bounds them",
    "C32": "proportional shares are integer arithmetic over unbounded recursive runtime sums; linear dataflow facts cannot decide them (the arithmetic safety of the limit is covered by C13, total counts by C12)",
    "C33": "the exact set of strings produced by the generator over arbitrary URLs is a relational claim about string values; dataflow can only decide which list is compared (C12, C25)",
    "C34": "completeness of recognition is a claim about the languages of several interacting capture patterns applied to arbitrary text; only placement, line numbers and grouping are decided (C15, C16, C22)",
    "C35": "time is a runtime quantity; the code has no deadline mechanism whose use could be checked",
    "C36": "depends on file system behaviour after power loss; the code makes no fsync call before rename and does not claim durability",
}
for _i in ["C01", "C02", "C03", "C04", "C05", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C25", "C26"]:
    NA.setdefault(_i, "rule not built yet")
