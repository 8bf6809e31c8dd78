"""per property: what its check compares the code with, and what the quick tier costs"""
ORACLE = {
"P01": ("a lexical normaliser of 10 lines that says which components remain; accepted paths must equal it, be UTF-8, relative and made of portable components, and portable paths must not be refused", "10 s"),
"P02": ("the target is resolved against the link's directory by the same normaliser; accepted iff it stays inside, and the written target must denote the same place", "10 s"),
"P03": ("the archives are made by the harness, so it knows each member's kind, name, mode and contents; a recording destination (and the disk) must have received exactly these, links last, none through a link, executable bits kept, no setuid; any failing write must be reported", "70 s"),
"P04": ("the PEP 508 name grammar and the PEP 503 normal form, written by hand; equality, order and hash must be those of the normal form", "40 s"),
"P05": ("PEP 440's sort key as tuples of integers; `next` must be larger and leave nothing between (any symbolic third version)", "25 s"),
"P06": ("a second matcher, on release tuples, after PEP 440's text; the candidate and the specifier are symbolic", "130 s"),
"P07": ("a hand-written recursive descent recogniser of PEP 508 (`harness/lib/pep508.rs`); printing, parsing and serialising must be inverse", "90 s"),
"P08": ("an evaluator of three lines over strings, versions and extras; eliminating `extra` is compared with evaluating for every value", "75 s"),
"P09": ("splitting names by hand; printing must give the text back, and the order must be total, transitive and agree with equality", "65 s"),
"P10": ("hexadecimal by hand; the content that is accepted must be the one with exactly that digest", "70 s"),
"P11": ("the history itself: which values were produced and committed; afterwards every lookup must give one of these, whole, and the store must work again", "100 s"),
"P12": ("counters and value tags of producers in all processes: one producer at a time, all callers agree, keys are never mixed up, no deadlock", "60 s"),
"P13": ("arithmetic on (start, end, position) in 128 bits and the bytes of the underlying file; each byte of the file is a function of its position", "25 s"),
"P14": ("the list of answers the scripted server sent, and RFC 9111's rule for the chosen headers; each answer must be one the server sent for that URL and still allowed", "100 s"),
"P15": ("walking the chain of scripted answers by hand: which URL is asked for next, how often, and what the outcome is", "60 s"),
"P16": ("content equality: what is returned for a digest must have it (digests are injective); the honest server's content must be accepted and stay", "70 s"),
"P17": ("a plain in-memory file with std::io's seek and read rules; with a hostile server, only bytes it sent for that position", "100 s"),
"P18": ("pages are generated from the links they should give (URL, name, hash, requires-python, yanked); the listing must be exactly these", "80 s"),
"P19": ("metadata files generated from fields, read back by hand with the RFC 822 rules posy documents; requirements compared with P07's recogniser", "100 s"),
"P20": ("entry point files generated from entries, and a line recogniser; scripts must import the module and call the object", "60 s"),
"P21": ("for each member: where the wheel format puts it, with what mode and contents; good wheels are accepted whole, others refused without traces", "110 s"),
"P22": ("recognisers of the tag forms with arithmetic on versions; expansions are compared element by element", "80 s"),
"P23": ("brute-force search over all assignments of versions in the small index decides whether there is a solution; the blueprint must satisfy every requirement, and each pin needs a reason", "100 s"),
"P24": ("the documented order as a comparison of two candidates; the first one offered must be its minimum among the usable ones", "80 s"),
"P25": ("the value itself must come back; for damaged text, an error or a value that is stored and comes back", "90 s"),
"P26": ("ranking of tags by position in the expansion lists; what is installed must be pinned, compatible and of the best rank; refused when metadata contradicts what was recorded", "100 s"),
"P27": ("a graph search tells whether a build depends on itself; a stand-in for the build backend notes which Python, which packages and which goal it ran with", "130 s"),
"P28": ("which sources exist and what they would say; the answer must be one of them, in the documented order of cost, cached under its own hash", "75 s"),
"P29": ("the level filter as an integer: monotonic in the number of flags, equal counts cancel out", "25 s"),
}
SEEN = {
    "P19-repeat": "yes, by P19 (missed at first; caught since its inputs "
                  "contain repeated requirements)",
    "P20-section": "yes, by P20 (missed at first; caught since its inputs "
                   "have more sections, with repeated names)",
    "P25-false": "yes, by P25 (missed at first; caught since the entry with "
                 "two recorded markers over any literals)",
}
