"""What each check explores: harness entries, bounds (parameters, smallest first), witnesses."""


def ns(a, b, **kw):
    return [dict(n=i, **kw) for i in range(a, b + 1)]


PLAN = {}
PLAN["P01"] = dict(
    bounds="every ASCII path of length <= 6, every byte string of length <= 4 (through each conversion), every path over {'.', '/', 'a'} of length <= 10, pairs over {'/', 'a', 'b'} of length <= 4",
    outside="longer paths; components longer than the path bound",
    entries=[
        dict(fn="h_p01_ascii", runs=ns(0, 6), thorough=ns(7, 9), reach=["accepted", "refused"]),
        dict(fn="h_p01_bytes", runs=ns(0, 4), thorough=ns(5, 6), reach=["accepted", "refused"]),
        dict(fn="h_p01_dots", runs=ns(1, 10), thorough=ns(11, 14), reach=["accepted", "refused"]),
        dict(fn="h_p01_join", runs=[dict(n=i, m=j) for i in range(1, 5) for j in range(1, 5)], thorough=[dict(n=6, m=6)], reach=["joined"]),
    ],
)
PLAN["P02"] = dict(
    bounds="link locations of up to 3 components and link targets of up to 8 bytes over {'.', '/', 'a'}; link targets of up to 5 arbitrary ASCII bytes",
    outside="longer targets; deeper link locations",
    entries=[
        dict(fn="h_p02_any", runs=[dict(n=i, depth=d) for i in range(1, 6) for d in (1, 3)], thorough=[dict(n=6, depth=2), dict(n=7, depth=2)], reach=["accepted", "refused", "root"]),
        dict(fn="h_p02_dots", runs=ns(1, 8), thorough=ns(9, 13), reach=["accepted", "refused"]),
    ],
)
PLAN["P03"] = dict(
    bounds="zip: one member with any ASCII name of up to 3 characters, any 32-bit attributes, 3 host systems, any 2 bytes of contents; two members with names of up to 3 characters over {a . /}, any mode, link targets of up to 2 characters over the same; three members out of 7 names and 4 link targets with a destination that fails at any write. tar.gz: one entry of any type (long-name and pax records aside), any name of up to 2 bytes, any mode, one or several gzip members; two entries out of 6 names and 5 types. On disk: two members (zip, 8 names, 6 targets; tar 8 names, 5 types), one member with any name of up to 3 and any target of up to 4 characters over {a . /}; one failing, short or interrupted file-system call",
    outside="more members; compressed zip members (DEFLATE is modelled as the identity, CRCs as constant); long-name and pax records (decoded by the tar crate); unpacking over existing files; case-insensitive file systems",
    entries=[
        dict(fn="h_p03_zip_one", runs=ns(1, 3), thorough=ns(4, 6), reach=["refused", "unpacked"]),
        dict(fn="h_p03_zip_some", runs=[dict(k=1, n=2, t=2), dict(k=2, n=2, t=2), dict(k=2, n=3, t=2)], thorough=[dict(k=2, n=3, t=3), dict(k=3, n=2, t=1), dict(k=2, n=5, t=2)], reach=["refused", "unpacked", "links"]),
        dict(fn="h_p03_zip_many", runs=[dict(k=2), dict(k=3)], thorough=[dict(k=4)], reach=["refused", "unpacked", "links", "destination fails"]),
        dict(fn="h_p03_tar_one", runs=ns(1, 2), thorough=ns(3, 4), reach=["refused", "unpacked", "sparse", "global header"]),
        dict(fn="h_p03_tar_many", runs=[dict(k=2)], thorough=[dict(k=3)], reach=["refused", "unpacked", "sparse"]),
        dict(fn="h_p03_zip_disk", runs=[dict(k=1), dict(k=2)], thorough=[dict(k=3, modes=1)], reach=["fails", "on disk", "link on disk"]),
        dict(fn="h_p03_zip_disk_names", runs=[dict(n=2, t=2), dict(n=3, t=4)], thorough=[dict(k=2, n=3, t=3), dict(n=5, t=6)], reach=["fails", "on disk", "link on disk"]),
        dict(fn="h_p03_tar_disk", runs=[dict(k=1), dict(k=2)], thorough=[dict(k=3)], reach=["fails", "on disk"]),
        dict(fn="h_p03_fault", runs=[{}], thorough=[dict(fault=2)], reach=["fault", "fails", "on disk"]),
    ],
)
PLAN["P04"] = dict(
    bounds="every ASCII name of length <= 5, every Unicode name of up to 3 characters, every name over {a, Z, 0, -, _, .} of length <= 6, pairs of names of length <= 4 over {a, b, A, B, -, _, .}, through TryFrom, FromStr and serde, for packages and extras",
    outside="longer names",
    entries=[
        dict(fn="h_p04_name", runs=ns(0, 5), thorough=ns(6, 8), reach=["accepted", "refused"]),
        dict(fn="h_p04_unicode", runs=ns(1, 3), thorough=ns(4, 4), reach=["accepted", "refused"]),
        dict(fn="h_p04_seps", runs=ns(2, 6), thorough=ns(7, 10), reach=["accepted", "refused"]),
        dict(fn="h_p04_routes", runs=ns(1, 3), thorough=ns(4, 5), reach=["accepted", "refused", "extra"]),
        dict(fn="h_p04_pair", runs=[dict(n=1, m=1), dict(n=2, m=3), dict(n=3, m=3), dict(n=4, m=3)], thorough=[dict(n=4, m=4), dict(n=5, m=5)], reach=["equal", "different"]),
    ],
)
PLAN["P05"] = dict(
    bounds="all versions with up to 2 release segments (4 without pre-release), every combination of epoch, pre-, post- and dev-release and all 32-bit numbers; up to 2 local segments; printing and parsing with numbers below 12 or at the u32 limit; spelled versions with symbolic digits; arbitrary text of up to 4 characters over 20 significant ones",
    outside="longer release tuples, more than two local segments; numbers above u32 (the pep440 dependency drops or refuses them)",
    entries=[
        dict(fn="h_p05_next", runs=[{}], thorough=[], reach=["next"]),
        dict(fn="h_p05_next_local", runs=[{}], thorough=[], reach=["next"]),
        dict(fn="h_p05_lowest", runs=[{}], thorough=[], reach=["lowest"]),
        dict(fn="h_p05_release", runs=ns(3, 3), thorough=ns(4, 6), reach=["equal", "different"]),
        dict(fn="h_p05_local", runs=ns(2, 2), thorough=ns(3, 3), reach=["equal", "different"]),
        dict(fn="h_p05_print", runs=[{}], thorough=[dict(m=40)], reach=["printed"]),
        dict(fn="h_p05_parse", runs=[dict(part=i) for i in range(3)], thorough=[], reach=["parsed"]),
        dict(fn="h_p05_text", runs=ns(1, 4), thorough=ns(5, 6), reach=["accepted", "refused"]),
        dict(fn="h_p05_order", runs=[{}], thorough=[], reach=["equal", "different"]),
    ],
)
PLAN["P06"] = dict(
    bounds="every operator, with and without a wildcard; specifier values with an optional epoch, up to 2 release segments (3 for ~=), pre-, post-, dev- and (==, !=) local parts of one symbolic digit each, or at the u32 limit; candidates of the same shapes with every 32-bit number below the limit; lists of two specifiers; arbitrary text of up to 4 characters over 14 significant ones as value",
    outside="values with more than one digit per part other than the u32 limit, longer release tuples; cases where PEP 440's text and its reference implementation disagree (post-releases of the base of a pre-release under '>', pre-releases of the base under '<V.postN')",
    entries=[
        dict(fn="h_p06_list", runs=[{}], thorough=[], reach=["list"]),
        dict(fn="h_p06_text", min=5, runs=ns(1, 5), thorough=ns(6, 7), reach=["accepted", "refused"]),
        dict(fn="h_p06_limit", runs=[{}], thorough=[], reach=["answered", "refused"]),
    ]
    + [dict(fn="h_p06_op", key="op%d" % o, runs=[dict(op=o)] + ([dict(op=o, local=1, rv=1, rc=1)] if o in (0, 2) else []) + ([dict(op=6, rv=3, rc=2)] if o == 6 else []), thorough=[dict(op=o, rv=3, rc=3)], reach=["selected", "not selected"]) for o in range(7)],
)
PLAN["P13"] = dict(
    bounds="windows anywhere in a stream of any size (64-bit positions) with one operation of any 64-bit amount; windows at any 16-bit offset, 12 bits long, with two operations of 12-bit amounts; windows of 0..3 bytes with up to 3 operations of 8-bit amounts and then reading to the end; reads of 0..3 bytes; the underlying stream may return short reads",
    outside="longer histories; read buffers above 3 bytes (except read_to_end); an underlying stream that fails",
    entries=[
        dict(fn="h_p13_any", key="wide", runs=[dict(n=1, wide=1)], thorough=[], reach=["seek", "refused", "read", "eof"]),
        dict(fn="h_p13_any", runs=[dict(n=2)], thorough=[], reach=["seek", "refused", "read", "eof"]),
        dict(fn="h_p13_small", runs=[dict(n=1, wide=2), dict(n=2, wide=2), dict(n=3, wide=2)], thorough=[dict(n=4, wide=2)], reach=["seek", "refused", "read", "eof"]),
        dict(fn="h_p13_drain", runs=[dict(n=1, wide=2), dict(n=2, wide=2)], thorough=[dict(n=3, wide=2)], reach=["drained"]),
    ],
)
PLAN["P07"] = dict(
    bounds="4 arbitrary ASCII characters (thorough 6) alone and in 11 surroundings covering names, extras, versions, variables, operators and literals; 2 (alone 3, thorough 4) words out of 24 in 5 surroundings; every variable name with every operator and literal form on either side; markers of up to 2 operators with arbitrary 1-character literals, 1 operator with 3-character literals, structures of nesting 2 (thorough 3); standalone markers and specifier lists with 4 (thorough 6) arbitrary ASCII characters; nesting of up to 6 parentheses (time grows less than exponentially)",
    outside="longer texts; non-ASCII text; direct URL references (posy documents that it refuses them); white space after a version inside parentheses",
    entries=[
        dict(fn="h_p07_text", runs=[dict(around=a, n=n) for n in (2, 4) for a in range(12)], thorough=[dict(around=a, n=n) for n in (5, 6) for a in range(12)], reach=["refused", "package", "specifiers", "marker", "user", "python", "extra outside package metadata"]),
        dict(fn="h_p07_words", runs=[dict(around=a, k=2) for a in range(5)] + [dict(around=0, k=3)], thorough=[dict(around=a, k=3) for a in range(1, 5)] + [dict(around=a, k=4) for a in range(5)], reach=["refused", "package", "specifiers", "marker", "user", "python", "extra outside package metadata"]),
        dict(fn="h_p07_vars", runs=[{}], thorough=[], reach=["refused", "marker", "user", "extra outside package metadata"]),
        dict(fn="h_p07_marker", runs=[dict(depth=0, n=0), dict(depth=0, n=2), dict(depth=1, k=1), dict(depth=2, n=1), dict(depth=0, n=3)], thorough=[dict(depth=3, n=1), dict(depth=1, n=1), dict(depth=1, n=2), dict(depth=0, n=4)], reach=["marker"]),
        dict(fn="h_p07_standalone", runs=[dict(around=a, n=n) for n in (1, 4) for a in range(4)], thorough=[dict(around=a, n=n) for n in (5, 6) for a in range(4)], reach=["marker", "refused"]),
        dict(fn="h_p07_specifiers", runs=[dict(around=a, n=n) for n in (1, 2, 4) for a in range(5)], thorough=[dict(around=a, n=n) for n in (5, 6) for a in range(5)], reach=["specifiers", "refused"]),
        dict(fn="h_p07_nested", runs=[dict(k=3)], thorough=[dict(k=10)], reach=["nested", "refused"]),
    ],
)
PLAN["P08"] = dict(
    bounds="any operator between two texts, one of them 2 (thorough 3) arbitrary ASCII characters in 5 surroundings and the other one of 6, either of which may be a variable's value; every pair of one-digit minor versions and a two-digit minor, with and without a wildcard, against a comparison of numbers; 8 extras against a name with 2 (thorough 3) arbitrary ASCII characters; every and/or tree of up to 4 leaves with known and unknown variables",
    outside="longer texts; non-ASCII text",
    entries=[
        dict(fn="h_p08_compare", runs=[dict(around=a, left=l, n=n) for n in (1, 2) for l in (0, 1) for a in range(5) if l == 0 or a < 3], thorough=[dict(around=a, left=l, n=3) for l in (0, 1) for a in range(5) if l == 0 or a < 3], reach=["versions", "strings", "refused"]),
        dict(fn="h_p08_numbers", runs=[{}], reach=["numbers", "wildcard", "refused"]),
        dict(fn="h_p08_extra", runs=[dict(around=a, n=n) for n in (1, 2) for a in range(3)], thorough=[dict(around=a, n=3) for a in range(3)], reach=["no extra", "equal", "different"]),
        dict(fn="h_p08_logic", runs=[dict(depth=1), dict(depth=2)], thorough=[], reach=["true", "false", "refused", "short cut"]),
    ],
)
PLAN["P09"] = dict(
    bounds="wheel, pybi and sdist names with any of 6 regions, or the end, replaced by up to 3 (thorough 5) characters over 'a1-._+!' (4 to 5 for sdists and ends); one (thorough 2) arbitrary ASCII character inserted or replaced anywhere in 3 names; build tags of up to 2 digits and one more character, and all tags within 100 of the u32 limit; pairs of names of any kind with symbolic 32-bit build numbers, build texts and tags; triples of 10 names; pybi tags with up to 3 symbolic characters around macosx_..._universal2",
    outside="longer names and tags; versions beyond PEP 440 text of the given alphabet (P04, P05)",
    entries=[dict(fn="h_p09_text", key="text%d" % k, runs=[dict(kind=k, n=n) for n in range(1, 4)], thorough=[dict(kind=k, n=n) for n in (4, 5)], reach=["refused", ["wheel", "wheel", "wheel", "pybi", "pybi"][k]]) for k in range(5)]
    + [
        dict(fn="h_p09_text", key="sdist", runs=[dict(kind=5, n=n) for n in range(1, 5)], thorough=[dict(kind=5, n=n) for n in (5, 6, 7)], reach=["refused", "sdist"]),
        dict(fn="h_p09_text", key="ends", runs=[dict(kind=6, n=n) for n in range(1, 6)], thorough=[dict(kind=6, n=n) for n in (6, 7, 8)], reach=["refused", "sdist", "wheel"]),
        dict(fn="h_p09_ascii", runs=[dict(n=1)], thorough=[dict(n=2)], reach=["refused", "sdist", "wheel", "pybi"]),
        dict(fn="h_p09_build", runs=[dict(digits=1, n=1), dict(digits=2, n=1)], thorough=[dict(digits=2, n=2)], reach=["refused", "build tag"]),
        dict(fn="h_p09_order", runs=[{}], reach=["build decides", "version decides", "equal"]),
        dict(fn="h_p09_transitive", runs=[{}], reach=["chain"]),
        dict(fn="h_p09_split", runs=[dict(k=1, n=2), dict(k=2, n=2)], thorough=[dict(k=2, n=4), dict(k=3, n=1)], reach=["plain", "universal"]),
    ],
)
PLAN["P10"] = dict(
    bounds="every ASCII text of up to 11 characters; 'sha256=' with 6 to 9 (or 22 to 25) arbitrary ASCII characters; algorithm names of up to 5 arbitrary ASCII characters with 8 digest spellings through every conversion; every 32-byte digest in upper or lower case; contents of up to 4 bytes written in up to 3 pieces (whole, partial or failing writes) against expected digests of 4, 31, 32 and 33 arbitrary bytes",
    outside="longer texts and contents; SHA-256 itself (ring) is replaced by an injective function of the content, so only equality of digests matters",
    entries=[
        dict(fn="h_p10_text", runs=ns(1, 11), thorough=ns(12, 13), reach=["accepted", "refused"]),
        dict(fn="h_p10_mode", runs=ns(0, 5), thorough=ns(6, 8), reach=["accepted", "refused"]),
        dict(fn="h_p10_hex", runs=ns(6, 9), thorough=ns(11, 14), reach=["accepted", "refused"]),
        dict(fn="h_p10_full", runs=[{}], thorough=[], reach=["accepted"]),
        dict(fn="h_p10_check", runs=[dict(n=i, len=32) for i in (0, 2, 4)] + [dict(n=3, len=l) for l in (4, 31, 33)], thorough=[dict(n=6, len=32, parts=4)], reach=["match", "mismatch", "write failed"]),
    ],
)
PLAN["P11"] = dict(
    bounds="one key; histories of 2 operations with a crash and a fault, or 3 operations with a crash or a fault; crashes before any file-system call or in the middle of a write; faults: I/O error, interruption or short transfer at any file-system call; values of up to 3 bytes",
    outside="longer histories, several crashes; loss of data that was written before a power failure (only process crashes are modelled); other processes at the same time (P12)",
    entries=[
        dict(fn="h_p11_file", runs=[dict(ops=2, crash=1, fault=1), dict(ops=3, crash=1), dict(ops=3, fault=1)], thorough=[dict(ops=2, crash=2), dict(ops=3, crash=1, fault=1), dict(ops=4, crash=1), dict(ops=2, fault=2)], reach=["crashed", "fault", "failed", "found", "kept", "nothing", "produced", "replaced"]),
        dict(fn="h_p11_dir", runs=[dict(ops=2, crash=1, fault=1), dict(ops=3, crash=1), dict(ops=3, fault=1)], thorough=[dict(ops=2, crash=2), dict(ops=3, crash=1, fault=1), dict(ops=4, crash=1), dict(ops=2, fault=2)], reach=["crashed", "fault", "failed", "found", "nothing", "produced"]),
    ],
)
PLAN["P12"] = dict(
    bounds="2 processes with up to 4 preemptions (3 with a crash), 3 processes with up to 2 (3 when the store exists), preemptible before every file-system call; all operations of both stores on one key, get-or-set on two keys; keys from any two digests of 4..12 bytes over 5 algorithm names and any two names of up to 8 bytes",
    outside="threads within one process (they share the same file locks through separate descriptors, as processes do); more preemptions or processes; network file systems",
    entries=[
        dict(fn=f, runs=[dict(switch=1), dict(switch=3), dict(switch=2, crash=1), dict(switch=2, procs=3), dict(switch=4), dict(switch=3, crash=1)], thorough=[dict(switch=3, procs=3), dict(switch=3, procs=3, pre=1), dict(switch=5), dict(switch=4, crash=1), dict(switch=2, procs=3, crash=1)], reach=r)
        for f, r in (("h_p12_files", ["once", "replaced", "crashed"]), ("h_p12_dirs", ["once", "crashed"]))
    ]
    + [dict(fn=f, runs=[dict(switch=2), dict(switch=4)], thorough=[dict(switch=6)], reach=["apart"]) for f in ("h_p12_apart_files", "h_p12_apart_dirs")]
    + [
        dict(fn="h_p12_hash_keys", runs=[dict(n=4, m=4), dict(n=5, m=4), dict(n=12, m=12)], thorough=[dict(n=16, m=16)], reach=["keys"]),
        dict(fn="h_p12_blob_keys", runs=[dict(n=2, m=2), dict(n=0, m=1), dict(n=8, m=7)], thorough=[], reach=["keys"]),
    ],
)
PLAN["P14"] = dict(
    bounds="any history of 2 requests (3 with fewer kinds; thorough 3 and 4) in any of the three cache modes over 2 URLs one of which may redirect to the other, at chosen times, where the server may have changed the document and answers with 200, 404, 304 when asked, a redirect, a body cut short or not at all, under 9 kinds of caching headers; bodies of 1 arbitrary byte; one crash or one failing system call at any point of the histories with fewer kinds; index pages likewise",
    outside="longer histories; Vary on particular fields; heuristic freshness (Last-Modified); clocks running backwards; a 304 nobody asked for",
    entries=[
        dict(fn="h_p14_files", runs=[dict(ops=1, modes=2), dict(ops=2, modes=2), dict(ops=2, modes=3, n=0, urls=1, kinds=4, answers=3), dict(ops=2, modes=1, n=0, kinds=2, answers=2, fault=1), dict(ops=2, modes=1, n=0, kinds=2, answers=1, crash=1), dict(ops=3, modes=2, n=0, kinds=3, answers=2)], thorough=[dict(ops=2, modes=3, n=0, urls=1), dict(ops=2, modes=2, n=0, kinds=5, fault=1), dict(ops=2, modes=2, n=0, kinds=3, crash=1), dict(ops=3, modes=2, kinds=4), dict(ops=3, modes=3, n=0, urls=1, kinds=3), dict(ops=4, modes=2, n=0, kinds=3, answers=2)], reach=["cache only", "failed", "fetched", "from the cache", "not cached", "not stored", "uncacheable", "validated", "crashed", "fault"]),
        dict(fn="h_p14_index", runs=[dict(ops=1), dict(ops=2), dict(ops=2, kinds=2, answers=2, fault=1)], thorough=[dict(ops=3, kinds=6), dict(ops=2, kinds=4, fault=1), dict(ops=2, kinds=3, crash=1)], reach=["failed", "from the cache", "not found", "page", "validated", "fault"]),
    ],
)
PLAN["P15"] = dict(
    bounds="downloads, index pages and HEAD probes whose first 1 to 7 requests are answered with any status from 200 to 599 or any of 13 transport errors, redirects with one of 7 forms of Location (absolute, other host, absolute path, relative, parent, query only, fragment only) or with none or a malformed one; all chains up to 3 requests, chains up to 7 with fewer forms (the limits of 5 redirects and 6 attempts are passed)",
    outside="1xx statuses; other Location forms (resolution itself is the url crate's); pauses between attempts",
    entries=[
        dict(fn="h_p15_redirects", runs=[dict(n=1), dict(n=2), dict(n=7, locations=2, statuses=3), dict(n=3, statuses=5)], thorough=[dict(n=3), dict(n=8, locations=2, statuses=4), dict(n=4, statuses=4)], reach=["answered", "gave up", "limit", "no location", "redirected", "tried again"]),
        dict(fn="h_p15_status", runs=[dict(n=1, failures=13), dict(n=2, failures=13), dict(n=3, failures=13), dict(n=5)], thorough=[dict(n=4, failures=13), dict(n=6), dict(n=5, failures=13), dict(n=7)], reach=["answered", "broken", "redirected", "tried again"]),
        dict(fn="h_p15_index", runs=[dict(n=1, any=1), dict(n=2, statuses=5), dict(n=2, locations=4, any=1)], thorough=[dict(n=2), dict(n=2, any=1), dict(n=3)], reach=["answered", "no location", "no such project", "odd", "page", "redirected", "tried again"]),
        dict(fn="h_p15_head", runs=[dict(n=2, failures=13), dict(n=6, failures=2)], thorough=[dict(n=6, failures=6)], reach=["answered", "broken", "gave up", "limit", "probed", "tried again"]),
    ],
)
PLAN["P16"] = dict(
    bounds="up to 3 runs of posy (thorough 4), each against a server that is dead, honest or answers with one of 7 kinds of response whose body is up to n+1 arbitrary bytes, with a crash and a failing system call; 2 runs at the same time with up to 2 preemptions (thorough 3) and a third afterwards; 5 algorithm names and digests of 5 lengths",
    outside="artifacts of more than 31 bytes (digests are modelled as injective, SHA-256 itself is ring's); loss of unsynced data in a power failure",
    entries=[
        dict(fn="h_p16_digest", runs=[dict(n=3)], thorough=[dict(n=6)], reach=["right", "wrong"]),
        dict(fn="h_p16_history", runs=[dict(ops=2, n=3), dict(ops=1, crash=1, fault=1), dict(ops=2, crash=1), dict(ops=2, fault=1), dict(ops=3), dict(ops=3, redirect=1, n=2)], thorough=[dict(ops=2, crash=1, fault=1), dict(ops=3, crash=1), dict(ops=3, fault=1), dict(ops=4)], reach=["served", "refused", "hostile but right", "crashed", "fault"]),
        dict(fn="h_p16_parallel", runs=[dict(switch=1, n=2, few=1)], thorough=[dict(switch=1, crash=1, n=2, few=1), dict(switch=2, n=2, few=1), dict(switch=2, n=2)], reach=["served", "refused"]),
    ],
)
PLAN["P17"] = dict(
    bounds="any two seeks (thorough 3) with any 64-bit offsets; 3 seeks and reads (thorough 4) in files of up to 4 arbitrary bytes; 2 seeks and reads (thorough 3) at 16 positions around the borders of files of 9 999 to 25 000 bytes; a hostile server: 5 lengths up to 2^64-1 in 4 forms, then for up to 2 reads (thorough 3) one of 5 kinds of answer with one of 6 offsets and up to 2 (thorough 3) arbitrary bytes; servers without ranges, with and without a hash",
    outside="bodies without end; larger files (fetches are in blocks of 10 000 bytes); other transfer encodings",
    entries=[
        dict(fn="h_p17_seek", runs=[dict(n=2, ops=1), dict(n=2, ops=2)], thorough=[dict(n=2, ops=3)], reach=["bad seek", "end of file", "full read", "short read"]),
        dict(fn="h_p17_small", runs=[dict(n=3, ops=2), dict(n=4, ops=3), dict(n=1, ops=3)], thorough=[dict(n=4, ops=4)], reach=["end of file", "full read", "short read"]),
        dict(fn="h_p17_large", runs=[dict(size=i, ops=2) for i in range(5)], thorough=[dict(size=i, ops=3) for i in range(5)], reach=["end of file", "full read", "short read"]),
        dict(fn="h_p17_hostile", runs=[dict(n=3, ops=1), dict(n=1, ops=2), dict(n=2, ops=2)], thorough=[dict(n=3, ops=2), dict(n=2, ops=3)], reach=["error", "bytes", "opened", "not opened"]),
        dict(fn="h_p17_fallback", runs=[dict(n=2)], thorough=[dict(n=4)], reach=["whole file", "refused"]),
    ],
)
PLAN["P18"] = dict(
    bounds="pages of up to 2 links (thorough 3) out of 22 forms (relative, absolute and protocol-relative URLs, queries, entities, %-encoding, upper case, unquoted, yanked, hashes, metadata hashes, multi-platform and universal2 pybis, and things that are no links) under 8 headings (base elements, repository versions); two indexes of up to 2 links each, either of which may not have the project; data-requires-python and data-yanked of any ASCII up to 2+1 characters (thorough 3+2); hashes with any 2 characters (thorough 3); file names with any 2 (thorough 4) characters over 'f1-._+/?#:\\\\'; repository versions of up to 4 characters over '012.x' (thorough 6)",
    outside="anchors left open, which HTML itself multiplies; links before the base element; encodings other than UTF-8; JSON indexes (posy has none)",
    entries=[
        dict(fn="h_p18_page", runs=[dict(n=1), dict(n=2)], thorough=[dict(n=3)], reach=["nothing", "something"]),
        dict(fn="h_p18_indexes", runs=[dict(n=2, k=1), dict(n=3, k=1)], thorough=[dict(n=2, k=2), dict(n=2, k=3)], reach=["nothing", "something"]),
        dict(fn="h_p18_values", runs=[dict(n=1, m=1), dict(n=2, m=1)], thorough=[dict(n=3, m=2), dict(n=5, m=1)], reach=["values"]),
        dict(fn="h_p18_hash", runs=[dict(n=2)], thorough=[dict(n=3), dict(n=4)], reach=["hash"]),
        dict(fn="h_p18_names", runs=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=4), dict(n=5)], reach=["name", "no name"]),
        dict(fn="h_p18_version", runs=[dict(n=4)], thorough=[dict(n=6)], reach=["accepted", "refused"]),
    ],
)
PLAN["P19"] = dict(
    bounds="5 arbitrary ASCII characters (thorough 7) in 7 places of a metadata file; 3 arbitrary bytes in a value (thorough 4); every mandatory or single field missing, once or twice under 3 spellings, up to 2 requirements and 2 extras, with and without a body; every metadata version of 6 shapes with symbolic digits; 3 (thorough 5) arbitrary characters in a requirement, a python requirement and an extra; 3 (thorough 5) printable characters in a marker variable and a path",
    outside="longer texts; JSON syntax beyond strings (serde_json)",
    entries=[
        dict(fn="h_p19_text", runs=[dict(around=a, n=n) for n in (2, 3, 5) for a in range(7)], thorough=[dict(around=a, n=n) for n in (6, 7) for a in range(7)], reach=["tag", "tags", "refused"]),
        dict(fn="h_p19_bytes", runs=ns(2, 3), thorough=ns(4, 4), reach=["text", "garbage", "refused"]),
        dict(fn="h_p19_fields", runs=[{}], thorough=[], reach=["accepted", "refused"]),
        dict(fn="h_p19_version", runs=[{}], thorough=[], reach=["accepted", "refused"]),
        dict(fn="h_p19_values", runs=[dict(field=f, n=n) for n in (1, 3) for f in range(3)], thorough=[dict(field=f, n=n) for n in (4, 5) for f in range(3)], reach=["accepted", "refused"]),
        dict(fn="h_p19_json", runs=[dict(which=w, n=n) for n in (2, 3) for w in range(2)], thorough=[dict(which=w, n=n) for n in (4, 5) for w in range(2)], reach=["accepted", "refused"]),
    ],
)
PLAN["P20"] = dict(
    bounds="one arbitrary ASCII line of up to 3 characters in 6 surroundings; arbitrary text of up to 5 characters over '[]=:.#a', space and newline, at the start and after a section; entries with one of their 6 parts replaced by up to 2 arbitrary ASCII characters; up to 3 sections with symbolic names and up to 2 entries each; launchers for console and GUI, Unix and Windows, with symbolic one-character names, modules and objects",
    outside="longer lines; non-ASCII text; continuation lines (the file format's documentation excludes them); references with empty components such as 'a..b' may be refused or accepted",
    entries=[
        dict(fn="h_p20_line", runs=ns(1, 3), thorough=ns(4, 6), reach=["refused", "entries", "object"], min=2),
        dict(fn="h_p20_text", runs=ns(1, 5), thorough=ns(6, 8), reach=["refused", "entries"], min=4),
        dict(fn="h_p20_parts", runs=ns(1, 2), thorough=ns(3, 3), reach=["refused", "entries", "object"]),
        dict(fn="h_p20_sections", runs=[dict(k=3, entries=2, ends=1), dict(k=2), dict(k=4, entries=2, ends=1)], thorough=[dict(k=3)], reach=["entries", "sections"]),
        dict(fn="h_p20_script", runs=[dict(n=1)], thorough=[dict(n=2)], reach=["console", "gui", "windows"]),
    ],
)
PLAN["P21"] = dict(
    bounds="one member of any ASCII name of up to 2 characters (thorough 4) behind 4 prefixes; 10 categories with 8 rests and any 16-bit mode; scripts of any 2 bytes (thorough 4) after 4 starts and before 3 ends; metadata directories with any of the 4 parts of their name replaced by up to 2 (thorough 4) characters of its alphabet; up to two more special directories out of 13; WHEEL and METADATA with one field replaced by up to 3 characters, a line missing or repeated, or a file missing; entry point names of up to 3 characters over {a . / space} and up to two more",
    outside="longer names; more members; RECORD (posy does not read it); compressed members (DEFLATE is modelled as the identity); other RFC822 syntax (P19)",
    entries=[
        dict(fn="h_p21_name", runs=ns(1, 2), thorough=ns(3, 4), reach=["refused", "placed", "nowhere"], min=2),
        dict(fn="h_p21_category", runs=[{}], reach=["refused", "placed", "nowhere", "link", "binary script"]),
        dict(fn="h_p21_script", runs=ns(1, 2), thorough=ns(3, 4), reach=["script", "gui script", "binary script"]),
        dict(fn="h_p21_dist_info", runs=[dict(part=p, n=n) for p in range(4) for n in (1, 2)], thorough=[dict(part=p, n=n) for p in range(4) for n in (3, 4)], reach=["refused", "accepted"], key="h_p21_dist_info"),
        dict(fn="h_p21_ambiguous", runs=[{}], reach=["refused", "accepted"]),
        dict(fn="h_p21_vitals", runs=[dict(which=w, n=n) for w, n in [(0, 3), (1, 0), (2, 2), (2, 3), (3, 2), (3, 3), (4, 0)]], thorough=[dict(which=w, n=n) for w in (0, 2, 3) for n in (4, 5)], reach=["refused", "accepted"]),
        dict(fn="h_p21_vitals", key="h_p21_vitals_missing", runs=[dict(which=5)], reach=["refused"]),
        dict(fn="h_p21_entry_points", runs=ns(1, 3), thorough=ns(4, 5), reach=["launchers"], min=1),
    ],
)
PLAN["P22"] = dict(
    bounds="any ASCII tag of up to 4 characters; 9 starts, one ASCII character (thorough 2) and 5 ends; manylinux and musllinux versions with one-digit majors and minors of up to 2 digits; macosx versions 00 to 39 with minors of up to 2 digits; version numbers of 5 digits; scores of up to 3 tags; up to 3 wheel tag templates with symbolic middles",
    outside="longer version numbers; probing the machine for its own tags (runs helper executables)",
    entries=[
        dict(fn="h_p22_text", runs=ns(1, 4), thorough=ns(5, 8), reach=["passed through"]),
        dict(fn="h_p22_rest", runs=ns(0, 1), thorough=ns(2, 2), reach=["linux", "macos", "passed through"]),
        dict(fn="h_p22_linux", runs=[dict(minor=1), dict(minor=2)], thorough=[dict(major=2, minor=2)], reach=["linux"]),
        dict(fn="h_p22_macos", runs=[dict(minor=1), dict(minor=2)], thorough=[], reach=["macos", "passed through"]),
        dict(fn="h_p22_huge", runs=ns(5, 6), thorough=ns(7, 12), reach=["huge"]),
        dict(fn="h_p22_best", runs=[dict(k=1), dict(k=2)], thorough=[dict(k=3)], reach=["best"], min=2),
        dict(fn="h_p22_wheels", runs=[dict(k=1, n=2), dict(k=2, n=2)], thorough=[dict(k=3, n=1)], reach=["template", "plain"]),
    ],
)
PLAN["P23"] = dict(
    bounds="indexes of up to 3 projects with up to 3 releases, each release with up to 3 requirements out of: any of 5 specifiers on any project, on extras, on itself, with any of 11 markers; release candidates, yanked releases, releases for other Pythons (as stated by the page, by the metadata, or unreadably), allowed pre-releases, earlier pins; up to 2 user requirements; a project is drawn only when it is asked for",
    outside="metadata read out of wheels and builds from sdists (P19, P20, P27); larger graphs; which of several solutions is best (only the order of versions is documented, P24)",
    entries=[
        dict(fn="h_p23_graph", runs=[dict(k=2, versions=2, specs=2), dict(k=2, versions=2, specs=3), dict(k=2, versions=1, specs=2, deps=2, roots=2)], thorough=[dict(k=2, versions=2, specs=5), dict(k=3, versions=1, specs=2, deps=2), dict(k=2, versions=1, specs=4, deps=2, roots=2), dict(k=3, versions=2, specs=2), dict(k=2, versions=2, specs=2, deps=2)], reach=["impossible", "not the newest", "resolved", "resolved with dependencies"]),
        dict(fn="h_p23_extras", runs=[dict(a=4, b=2, deps=1)], thorough=[dict(a=8, b=3, deps=1), dict(a=3, b=3, deps=2), dict(a=8, b=3, deps=2)], reach=["impossible", "not the newest", "resolved", "resolved with dependencies"]),
        dict(fn="h_p23_markers", runs=[dict(deps=2)], thorough=[dict(deps=3), dict(deps=4)], reach=["portable", "resolved", "resolved with dependencies"]),
        dict(fn="h_p23_choice", runs=[dict(versions=2, kinds=6), dict(versions=3, kinds=3)], thorough=[dict(versions=3, kinds=7)], reach=["impossible", "not the newest", "resolved", "resolved with dependencies"]),
    ],
)
PLAN["P24"] = dict(
    bounds="any 3 or 4 of 6 versions (two release candidates), any of them pinned or a missing one, any subset excluded, any of them yanked, for another Python by page or by metadata, pre-releases allowed or not; up to 3 files of 2 versions, yanked or not, with hash or not, any of them pinned; up to 3 Python files of 3 versions with 7 tags for 5 lists of platforms, yanked or not, any version pinned, 2 specifiers",
    outside="more versions; macOS and Windows platforms here (their tags are covered by P11)",
    entries=[
        dict(fn="h_p24_order", runs=[dict(), dict(**{"from": 2}), dict(versions=3, kinds=4), dict(versions=3, kinds=4, **{"from": 3})], thorough=[dict(versions=4, kinds=4), dict(versions=6), dict(versions=5, kinds=3)], reach=["earlier than pinned", "later than pinned", "newest", "nothing", "the pinned version"]),
        dict(fn="h_p24_yanked", runs=[dict(files=2)], thorough=[dict(files=3)], reach=["nothing", "resolved", "yanked but pinned"]),
        dict(fn="h_p24_pybi", runs=[dict(files=3, same=1, kinds=1, platforms=4, tags=5, pinned=1), dict(tags=2, kinds=2, platforms=1), dict(tags=3, kinds=1)], thorough=[dict(tags=7, kinds=1), dict(), dict(files=3, tags=3, kinds=2)], reach=["chosen", "nothing", "not the newest", "several files"]),
    ],
)
PLAN["P25"] = dict(
    bounds="3 Python requirements, up to 2 of 4 requirements, :all: or up to 2 packages named with up to 2 of 7 characters; pins with 0-2 hashes; up to 2 wheels with 0-2 requirements, 4 sets of specifiers, extras, and up to 2 characters of provenance that JSON escapes; up to 3 recorded markers of 16 shapes, and two with literals of any ASCII character in either quotes; stored as text, pretty text and value, loaded from text, reader, bytes and value; a whole brief or blueprint with any 0-2 bytes replacing or inserted at any place; any combination of present, missing, repeated and mistyped fields of a brief",
    outside="longer lists and names (their grammar is covered by P06, P07, P16); serde's other formats",
    entries=[
        dict(fn="h_p25_brief", runs=[dict(), dict(k=2), dict(n=2)], thorough=[dict(n=2, k=2), dict(n=3)], reach=["all", "none", "some"]),
        dict(fn="h_p25_pins", runs=[dict()], thorough=[], reach=["hashes", "no hashes"]),
        dict(fn="h_p25_wheel", runs=[dict(), dict(k=2)], thorough=[dict(n=2), dict(n=2, k=2)], reach=["any python", "no wheels", "wheels"]),
        dict(fn="h_p25_markers", runs=[dict()], thorough=[dict(k=3)], reach=["none", "one", "two"]),
        dict(fn="h_p25_literals", runs=[dict(), dict(n=2)], thorough=[dict(n=3)], reach=["different", "same"]),
        dict(fn="h_p25_damage", key="brief", runs=[dict(which=0)], thorough=[dict(which=0, n=2), dict(which=0, n=3)], reach=["loaded", "refused"]),
        dict(fn="h_p25_damage", key="blueprint", runs=[dict(which=1, n=0)], thorough=[dict(which=1, n=1), dict(which=1, n=2)], reach=["loaded", "refused"]),
        dict(fn="h_p25_fields", runs=[dict()], thorough=[], reach=["loaded", "refused"]),
    ],
)
PLAN["P26"] = dict(
    bounds="up to 3 wheels with any of 9 tags (compressed sets included), of 2 versions, listed or unlisted or without a hash; up to 3 Python files with any of 5 tags for 5 lists of platforms; a source archive that is pinned, unpinned, without hash or absent, another one before it, with any 2 of 8 wheels unpacked earlier; every pair of 7 dependency lists, 4 requires-python and 5 sets of extras between what was recorded and what is installed; a wheel fetched, damaged in any of 3 places, and used again without network; environments of up to 3 packages in any order with 5 inherited PATHs",
    outside="unpacking a Python and changing its site.py (P03 covers unpacking); wheels that first have to be built (P27); join_paths failing on directories with colons; an unset PATH",
    entries=[
        dict(fn="h_p26_wheel", key="wheel tags", runs=[dict(tags=5), dict(tags=9, kinds=2)], thorough=[dict(tags=9), dict(tags=9, versions=2)], reach=["a better one is not pinned", "installed", "nothing", "one of several"]),
        dict(fn="h_p26_wheel", key="wheel files", runs=[dict(files=2, versions=2, kinds=2, tags=3), dict(files=3, tags=3, kinds=2)], thorough=[dict(files=3, tags=5), dict(files=4, tags=3, kinds=2), dict(files=3, tags=5, versions=2)], reach=["a better one is not pinned", "installed", "nothing", "one of several"]),
        dict(fn="h_p26_python", runs=[dict(), dict(versions=2, tags=3, kinds=2), dict(files=3, tags=3, kinds=2, platforms=2)], thorough=[dict(tags=5, versions=2), dict(files=3, tags=5, kinds=2), dict(files=3, tags=5)], reach=["installed", "less preferred platform", "nothing", "one of several"]),
        dict(fn="h_p26_sdist", runs=[dict(tags=3), dict(tags=5)], thorough=[dict(tags=9), dict(built=3, tags=4)], reach=["installed", "nothing", "one of several", "would have to be built"]),
        dict(fn="h_p26_metadata", runs=[dict()], thorough=[dict(n=3), dict(n=4)], reach=["consistent", "refused"]),
        dict(fn="h_p26_fetch", runs=[dict()], thorough=[], reach=["damaged", "installed", "refused"]),
        dict(fn="h_p26_paths", runs=[dict()], thorough=[], reach=["none", "one", "several"]),
    ],
)
PLAN["P27"] = dict(
    bounds="up to 2 builds that wait, of 6 spellings of 3 names, for either goal; up to 2 wheels built earlier with any of 8 tags, and a build that makes any of 8 tags, with any damage of a build that stopped; builds for 1 or 2 (thorough 3) out of 4 (thorough 5) Pythons, one of them a release candidate, each of which runs here, only elsewhere, or does not exist; 2 packages that need each other or themselves in every way, as static or dynamic requirements, with wheels, known metadata or neither, resolved first or from a blueprint",
    outside="what a real build backend does (a stand-in runs in its place: natively a shell script); more packages except in the thorough tier; builds at the same time (P12)",
    entries=[
        dict(fn="h_p27_stack", runs=[dict(depth=2, n=4), dict(depth=2, n=6)], thorough=[dict(depth=3, n=6)], reach=["loop", "built", "failed"]),
        dict(fn="h_p27_cache", runs=[dict(), dict(cached=3)], thorough=[dict(made=8), dict(cached=3, made=8), dict(tags=8, made=8)], reach=["best of several", "built", "built again", "cached", "failed"]),
        dict(fn="h_p27_python", runs=[dict(versions=4)], thorough=[dict(versions=5)], reach=["another python", "exactly the target", "like the target", "no python"]),
        dict(fn="h_p27_python", key="python, after a build for another one", runs=[dict(versions=3, targets=2), dict(versions=4, targets=2)], thorough=[dict(versions=4, targets=3), dict(versions=5, targets=2)], reach=["another build before", "exactly the target"]),
        dict(fn="h_p27_graph", key="graph", runs=[dict(), dict(packages=3, edges=0)], thorough=[dict(packages=3)], reach=["built", "built what it needs", "loop"]),
        dict(fn="h_p27_graph", key="graph, requirements told by the backend", runs=[dict(dynamic=1)], thorough=[dict(dynamic=1, packages=3, edges=0)], reach=["built", "built what it needs", "loop"]),
        dict(fn="h_p27_graph", key="graph, resolved first", runs=[dict(resolve=1)], thorough=[dict(resolve=1, packages=3, edges=0)], reach=["built", "built what it needs", "loop"]),
    ],
)
PLAN["P28"] = dict(
    bounds="every list of 1 to 3 (thorough 4) wheels and source archives with or without hash, for each of them whether its metadata is cached (any last byte), whether it is cached itself, by hash or by URL (any last byte), a server that is down, honours ranges, sends whole files, or sends something else, and a builder that is absent, fails or works; what is cached after the lookup and a second lookup without network; Pythons whose format version, name or version is any text of up to 3 (thorough 5) characters of its alphabet, mixes of right and wrong ones, lines missing or repeated, files missing",
    outside="damaged values in the caches (their writing is covered by P09 and P10); wheels' own vitals (P21)",
    entries=[
        dict(fn="h_p28_lookup", runs=[dict(k=1), dict(k=2), dict(k=3)], thorough=[dict(k=4)], reach=["built", "cached artifact", "cached metadata", "no hash", "nothing", "remote"], min=2),
        dict(fn="h_p28_python", runs=[dict(which=w, n=n) for w, n in [(0, 2), (0, 3), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 0)]], thorough=[dict(which=w, n=n) for w in range(3) for n in (4, 5)], reach=["accepted", "refused"]),
        dict(fn="h_p28_python", key="h_p28_python_lines", runs=[dict(which=4)], thorough=[], reach=["refused"]),
    ],
)
PLAN["P29"] = dict(
    bounds="every pair of counts below 255 and its neighbours; up to 4 flags of either kind on the command line",
    outside="more flags on a real command line (clap counts them); the POSY_DEBUG log, which has its own filter",
    entries=[
        dict(fn="h_p29_counts", runs=[{}], thorough=[], reach=["equal", "verbose", "quiet"]),
        dict(fn="h_p29_flags", runs=[dict(n=3)], thorough=[dict(n=4)], reach=["equal", "verbose", "quiet"]),
    ],
)
NOT_APPLICABLE = {
    "P30": "the Windows launchers are prebuilt binaries (no_std Win32 code that does not compile for this target) and the Unix side is a Python script: neither can be encoded from the crate's IR",
}
