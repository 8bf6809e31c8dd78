import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,obs,hook=False,state=None):
    a={"files":["src/"+f for f in files],"mechanism":[{"name":n,"where":"src/"+w} for n,w in mech],"observe_at":[obs]}
    if state:a["state"]=state
    if hook:a["hook_needed"]=hook if isinstance(hook,str) else "crate-root harness module included under cfg(posy_verif), so that the harness can call crate-internal functions"
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
H="crate-root harness module included under cfg(posy_verif)"
p("P01","Accepted archive paths stay inside the destination and are portable",
 "Every byte string that is accepted as an archive-member path denotes a relative path inside the destination directory: no absolute path, no '..' that escapes, no empty component, no component with a control character, a character illegal on Windows, or a trailing dot or space. An accepted path equals its lexical normalisation, a path that does escape is refused, and the text form of an accepted path parses back to the same path.",
 ["inputs"],"every byte string (any bytes, any length within the bound) used as a member path",
 "Path strings are attacker-controlled; a handful of examples cannot cover combinations of '..', '.', repeated slashes, odd trailing characters and invalid UTF-8.",
 ["tree.rs"],[("path validation","tree.rs:TryFrom<&UnixPath> for NicePathBuf"),("component check","tree.rs:check_path_piece")],"result of converting bytes to a validated path and its text/native form",H)
p("P02","Symlinks taken from an archive never point outside the destination",
 "For every link location and every link target that is accepted, following the written target from the directory containing the link, lexically and at every prefix, stays within the destination directory; absolute targets and targets that climb above the root are refused. The target that is written denotes the same place as the target in the archive, and a target that stays inside and is portable is accepted.",
 ["inputs"],"every (link location, target bytes) pair within the bounds",
 "Escapes hinge on counting '..' against the depth of the link, mixed with '.' and ordinary components; tests sample a few targets.",
 ["tree.rs"],[("symlink validation","tree.rs:NiceSymlinkPaths::new")],"accepted symlink source and sanitized target",H)
p("P03","Unpacking an archive writes exactly its members, links last, safe modes",
 "Unpacking any zip or tar.gz archive performs only writes inside the destination: one file or directory per accepted member with the member's bytes and executable bit, all symlinks after all other members and deeper links before shallower ones, and fails without writing the offending member when a member has an unsafe name, an unsafe link target, or (tar) is not a plain file or directory. On disk, no file outside the destination is ever created, changed or followed into.",
 ["inputs","histories"],"every archive listing up to the bounds: member count, names over a small alphabet, types, unix modes, link targets and contents symbolic",
 "Member order, types, modes and names interact (symlink then file below it, duplicate names); tests unpack one or two good archives.",
 ["tree.rs"],[("zip unpacking","tree.rs:unpack_zip_carefully"),("tar unpacking","tree.rs:unpack_tar_gz_carefully"),("on-disk writer","tree.rs:WriteTreeFS")],"sequence of writes issued to the destination tree, and the resulting file system",H)
p("P04","Package and extra names: exact grammar, one normal form, coherent equality",
 "A string is accepted as a package (or extra) name exactly if it matches the PEP 508 name grammar; its normalized form is the PEP 503 one (lower case, every run of '-', '_', '.' becomes a single '-'). Two names are equal exactly if their normalized forms are, and ordering and hashing agree with equality, and serialising keeps the spelling that was given.",
 ["inputs"],"every string, and every pair of strings, up to the length bound",
 "Normalization has to hold for all separators runs and case mixes; tests use three names.",
 ["vocab/package_name.rs","vocab/extra.rs"],[("parse and normalize","vocab/package_name.rs:TryFrom<&str> for PackageName"),("comparison","vocab/package_name.rs:derivative(Hash, PartialEq, Ord)")],"acceptance, normalized form, ==, cmp and hash of names",H)
p("P05","Versions: ordering is PEP 440's, and 'next' is a true successor",
 "For all versions the comparison is a total order that agrees with PEP 440 and with equality and hashing, and printing a version and parsing it again gives an equal version. The successor used to build ranges is strictly greater than the version and no PEP 440 version without a local part lies strictly between them, and computing it never panics; no version compares below the global minimum.",
 ["inputs"],"every version (and pair/triple of versions) whose parts lie within the bounds, including values at the top of the integer range",
 "Order and successor range over a 6-dimensional space of epochs, releases, pre/post/dev/local parts and integer extremes.",
 ["vocab/version.rs"],[("successor","vocab/version.rs:Version::next"),("range minimum/maximum","vocab/version.rs:VERSION_ZERO"),("parse/print","vocab/version.rs:TryFrom<&str> for Version")],"comparison results, successor values",H)
p("P06","A version specifier selects exactly the versions PEP 440 says",
 "For every operator, specifier value and candidate version, the specifier is satisfied exactly when PEP 440 says so (wildcards, '~=', exclusive comparisons and their pre-/post-release rules, local versions, zero padding), '!=' is the exact complement of '=='. A malformed value is an error, never a panic.",
 ["inputs"],"every (operator, specifier value, candidate version) with parts within the bounds",
 "Tables of examples cover single points of a product of two 6-dimensional version spaces and 7 operators.",
 ["vocab/specifier.rs","vocab/version.rs"],[("operator to ranges","vocab/specifier.rs:CompareOp::to_ranges"),("membership","vocab/specifier.rs:Specifier::satisfied_by")],"Specifier(s)::satisfied_by",H)
p("P07","Requirement strings parse, print and re-parse to the same requirement",
 "Every requirement string either is rejected with an error or yields a requirement whose printed form parses back to an equal requirement, in each of the three contexts (package, user, python) and also as stored in a lock file. No input panics; the contexts refuse what they must refuse ('extra' outside package metadata, extras or markers on a python requirement, direct references, '===').",
 ["inputs"],"every requirement/specifier-set/marker string up to the length bound over the grammar's alphabet, plus every syntax tree up to the size bound",
 "Grammar corner cases (quotes inside literals, nested and/or, whitespace, empty parts) are unbounded; tests are a dozen strings.",
 ["vocab/requirement.rs","vocab/reqparse.rs","vocab/specifier.rs"],[("grammar","vocab/reqparse.rs:parser"),("printing","vocab/requirement.rs:Display for Requirement/EnvMarkerExpr/Value"),("contexts","vocab/requirement.rs:PackageRequirement/UserRequirement/PythonRequirement")],"parse(print(parse(s))) == parse(s)",H)
p("P08","Environment markers evaluate as PEP 508 and 'extra' elimination is exact",
 "Evaluating a marker compares as versions exactly when both sides are valid for it and as strings otherwise, honours 'in'/'not in', and/or, and compares extras in normalized form. When the resolver removes 'extra' from a marker, the remaining marker evaluates in every environment to the same value as the original marker evaluated with that extra.",
 ["inputs","configurations"],"every marker expression tree up to the size bound, every environment and extra over symbolic strings within the bound",
 "Truth tables over trees, operators and environments; tests check six simplifications.",
 ["vocab/requirement.rs","resolve.rs"],[("marker evaluation","vocab/requirement.rs:EnvMarkerExpr::eval"),("extra elimination","resolve.rs:simplify_out_extra")],"marker value and dependencies chosen by the resolver",H)
p("P09","Artifact file names: parse and print are inverse, order is total",
 "Every sdist, wheel or pybi file name is either rejected or parsed into parts whose printed form parses back to equal parts (build tag, every compressed tag and the format included), without panicking. The order on names is total and agrees with equality, a wheel offers exactly the product of its compressed tags, and splitting a multi-platform pybi gives exactly one single-platform pybi per tag with universal2 expanded.",
 ["inputs"],"every file name up to the length bound and every structured name with symbolic parts",
 "Ambiguity between name, version and build tag, empty parts and number overflow only show for unusual names.",
 ["vocab/artifact_name.rs"],[("name grammar","vocab/artifact_name.rs:generic_parse"),("printing","vocab/artifact_name.rs:Display"),("tags","vocab/artifact_name.rs:all_tags/split_multiplatform_pybis")],"parsed names, all_tags, split names",H)
p("P10","Artifact hashes: strict parsing, exact check, and content is never mislabelled",
 "Every hash string is rejected or round-trips through its text form; a hash checker accepts a byte stream exactly if its digest equals the expected one, however the stream is cut into writes. Only a supported algorithm is ever accepted for checking, and any hash accepted from an index can be used as a storage key without a panic and without leaving the store.",
 ["inputs"],"every hash string within the bound, every content and every split into writes",
 "Short, odd-length, mixed-case or path-like algorithm names come from the index, not from tests.",
 ["vocab/artifact_hash.rs","kvstore.rs"],[("hash parsing","vocab/artifact_hash.rs:from_hex"),("checker","vocab/artifact_hash.rs:HashChecker"),("hash as storage key","kvstore.rs:PathKey for ArtifactHash")],"parse/print, finish() verdict, key path",H)
p("P11","Store entries are complete or absent across crashes and failures",
 "At whatever point the process dies or a file system call or the producer fails, a later lookup of a key in the file store or the directory store yields either nothing or one complete value that some producer finished, never a partial value. The first committed value stays: a later get-or-set returns it and does not run its producer; explicit replacement returns the old or the new value.",
 ["crash_points","fault_sequences","histories"],"every crash point (between any two file system calls), every single failing call, every operation history within the bounds",
 "Crash points between individual system calls cannot be hit by unit tests.",
 ["kvstore.rs"],[("write then rename","kvstore.rs:LockedWrite::commit"),("get_or_set","kvstore.rs:KVFileStore::get_or_set"),("directory store","kvstore.rs:KVDirStore::get_or_set")],"bytes read back from the store after recovery",H)
p("P12","Concurrent users of one store key do the work once and agree",
 "For any interleaving of two processes using the same store, the producers of one key never run at the same time, at most one producer of a successful get-or-set runs to completion, and every caller ends with the same complete value; nobody deadlocks. Different keys never share a path or lock and never leave the store's directory.",
 ["schedules"],"every interleaving of two processes' file system calls (get-or-set, get, lock, replace) within the bound; every pair of keys",
 "Interleavings at system-call granularity are not controllable from tests.",
 ["kvstore.rs"],[("lock file","kvstore.rs:lock"),("key to path","kvstore.rs:PathKey/bytes_to_path_suffix"),("get_or_set","kvstore.rs:KVFileStore::get_or_set/KVDirStore::get_or_set")],"values returned, producer start/finish events, paths touched",H)
p("P13","A window into a file behaves exactly like a file of its own",
 "For any underlying stream, window and sequence of seeks and reads, the windowed view returns the same bytes, positions and end-of-file as a separate file that holds only the window's bytes. No sequence reads outside the window, panics, or fails where the separate file would succeed within its bounds.",
 ["inputs","histories"],"every window, every operation sequence up to the length bound with fully symbolic 64-bit offsets",
 "Offsets near the 64-bit limits and interleavings of relative and absolute seeks are not sampled by tests.",
 ["seek_slice.rs"],[("seek arithmetic","seek_slice.rs:Seek for SeekSlice"),("bounded read","seek_slice.rs:Read for SeekSlice")],"results of seek/read on the view",H)
p("P14","The HTTP cache never changes an answer",
 "For every sequence of requests and every server behaviour, each answered request delivers the body, and the status, that the origin server sent for that very URL and method at some earlier moment (validated by a 304 or fresh where it is served from cache), also after an interrupted earlier write; an uncacheable answer is passed through rather than failing. In cache-only mode no request reaches the network, and in no-store mode the cache is neither read nor written.",
 ["histories","fault_sequences","inputs"],"every sequence of requests up to the bound, every choice of server answers (status, caching headers, bodies) and cache modes",
 "Freshness, validation and storability interact over multi-request histories with server choices.",
 ["package_db/http/http.rs","kvstore.rs","seek_slice.rs"],[("cache lookup","package_db/http/http.rs:HttpInner::one_request"),("entry write/read","package_db/http/http.rs:fill_cache/read_cache"),("key","package_db/http/http.rs:key_for_request")],"response status/body against the server's log",H)
p("P15","Redirects and retries: bounded, correct target, correct final URL",
 "A GET follows at most five redirects, each resolved against the URL that issued it, and reports the URL the answer really came from; other methods are not redirected, and exceeding the limit is an error. A transient failure (retryable status or transport error) is retried at most five times and any other outcome is returned unchanged at once.",
 ["inputs","fault_sequences"],"every chain of server answers and Location values up to the bound; every sequence of transient failures",
 "Chains of redirects and failure sequences are server-controlled.",
 ["package_db/http/http.rs","package_db/http/ureq_glue.rs"],[("redirect loop","package_db/http/http.rs:HttpInner::request"),("retry loop","package_db/http/ureq_glue.rs:call_with_retry")],"requests seen by the server; response URL/status",H)
p("P16","A downloaded artifact with a known hash is returned only if it matches",
 "Whatever the server sends, fetching an artifact with a known hash returns bytes whose digest is that hash or an error, and a mismatching, truncated or failed download leaves nothing that a later fetch would return. Once stored, the artifact is served from the store without any network access.",
 ["inputs","fault_sequences","histories"],"every server answer (status, body bytes), every fetch history up to the bound, every failing write",
 "A poisoned store entry appears only after a failed fetch followed by another one.",
 ["package_db/http/http.rs","vocab/artifact_hash.rs","kvstore.rs"],[("hashed fetch","package_db/http/http.rs:HttpInner::get_hashed"),("checker","vocab/artifact_hash.rs:HashChecker")],"bytes returned by get_hashed",H)
p("P17","Lazily fetched remote files read the same as the whole file",
 "For every file, every sequence of seeks and reads, and a server that honours range requests, the lazy file returns exactly the bytes, positions and end-of-file of the complete file. With a server that misbehaves (wrong or missing ranges, short bodies, changed length) every read yields an error or bytes the server sent for that position, never a panic or an endless loop, and a server without range support falls back to a full fetch.",
 ["inputs","histories","fault_sequences"],"every operation sequence up to the bound with symbolic offsets, sizes and file length; every server deviation within the model",
 "Gap arithmetic between cached blocks depends on histories of offsets; a random test cannot reach boundary coincidences or hostile answers.",
 ["package_db/http/lazy_remote_file.rs"],[("block cache and gap arithmetic","package_db/http/lazy_remote_file.rs:Read for LazyRemoteFile"),("range parsing","package_db/http/lazy_remote_file.rs:fetch_range")],"bytes returned by read/seek",H)
p("P18","Index pages: each valid link is listed with exact attributes, nothing invented",
 "For every index page, each anchor whose target names a valid artifact appears exactly once (once per platform for multi-platform pybis) with the resolved URL, hash, requires-python and yank state the page states, in page order, and everything else is ignored without failing the page. Artifacts are grouped under exactly their own version, and a page declaring an unsupported major API version is refused.",
 ["inputs"],"every page made of a bounded number of anchors/base/meta tags with symbolic attribute values",
 "Index content is remote input; tests parse one page.",
 ["package_db/simple_api/html.rs","package_db/simple_api/project_info.rs","package_db/package_db.rs"],[("link extraction","package_db/simple_api/html.rs:Sink::try_parse_link"),("grouping","package_db/simple_api/project_info.rs:pack_by_version"),("merging indexes","package_db/package_db.rs:available_artifacts")],"artifacts listed per version",H)
p("P19","Core metadata is read exactly and incompatible metadata is refused",
 "For every metadata file the parsed fields are exactly the header fields present (case-insensitive keys, continuation lines, body excluded); a duplicated or missing mandatory field or an unsupported major metadata version is refused. Name, version, requirements, python requirement, extras, pybi tags, paths and marker variables are carried over unchanged, and no input panics.",
 ["inputs"],"every metadata byte string up to the length bound and every structured metadata file with symbolic field values",
 "Line endings, continuations, duplicates, odd keys: the space of header blocks is large and tests hold a few fixtures.",
 ["vocab/rfc822ish.rs","vocab/core_metadata.rs"],[("header grammar","vocab/rfc822ish.rs:rfc822ish_parser"),("metadata","vocab/core_metadata.rs:parse_common")],"parsed metadata",H)
p("P20","Entry points are parsed completely and generated scripts call the named object",
 "Every well-formed entry_points file yields exactly the entries it states, per section, including single-character names, comments, whitespace and extras; an entry outside any section or a malformed line is an error, never a silent loss or a panic. The script generated for an entry point imports its module and calls its object, with the interpreter line matching console or GUI.",
 ["inputs"],"every entry_points text up to the length bound over the format's alphabet, and every structured file with symbolic names",
 "Regex corner cases (short identifiers, repeated sections, comment characters) are not sampled by two fixtures.",
 ["vocab/entry_points.rs","vocab/artifact_formats.rs"],[("entry point grammar","vocab/entry_points.rs:parse_entry_points"),("script text","vocab/artifact_formats.rs:script_for_entrypoint")],"parsed entries and script bytes",H)
p("P21","Installing a wheel puts every member where the wheel format says",
 "For every wheel, each member lands at the path its category prescribes (root by purelib/platlib, data directories by category, scripts rewritten to launchers when they start with the python placeholder and otherwise copied as executables), with its bytes unchanged elsewhere; an unknown category, a symlink, an ambiguous or mismatching metadata directory, name, version or wheel version is refused. Entry points yield one launcher each and the installer marker is written.",
 ["inputs"],"every wheel listing up to the bounds with symbolic member names, contents and metadata",
 "Category mapping and refusal rules range over member lists; there is no unit test for installation.",
 ["vocab/artifact_formats.rs","trampolines/mod.rs"],[("vitals","vocab/artifact_formats.rs:Wheel::get_vitals"),("special directory","vocab/artifact_formats.rs:Wheel::find_special_wheel_dir"),("mapping","vocab/artifact_formats.rs:WheelTreeTransformer"),("launchers","trampolines/mod.rs:TrampolineMaker")],"writes issued to the destination tree",H)
p("P22","Platform tags: expansion is sound and best-first, and the best tag wins",
 "Expanding a platform tag yields only tags that any machine supporting the given tag supports, contains all implied legacy and older tags, has no duplicates and is ordered best first with the tag itself (canonicalised) first; an unrecognised tag passes through unchanged and no tag text panics. Compatibility scores order tags exactly as the expansion does, and a python's wheel tags combine its templates and the platform's tags in order.",
 ["inputs"],"every tag string up to the bound and every version pair with symbolic digits",
 "Version arithmetic across the macOS 10/11 boundary, legacy aliases and huge numbers.",
 ["platform_tags/expand.rs","platform_tags/platform.rs"],[("tag expansion","platform_tags/expand.rs:expand_platform_tag"),("scores","platform_tags/platform.rs:compatibility/max_compatibility"),("wheel tags","platform_tags/platform.rs:PybiPlatform::wheel_platform")],"tag lists and scores",H)
p("P23","A resolved blueprint satisfies every requirement it must",
 "For every index content and brief, a returned blueprint pins exactly one version for each package in the dependency closure and nothing else, every user requirement and every applicable dependency (with extras and markers) of every pinned package is satisfied, only allowed, non-yanked, python-compatible releases are chosen, and the recorded metadata and hashes are those of the pinned releases. If a solution exists, resolution does not report failure.",
 ["inputs","configurations"],"every index of a bounded number of packages and versions with symbolic dependencies, specifiers, extras, markers, yank and pre-release flags",
 "The solver's answer depends on the global combination of all releases; unit tests have none for resolution.",
 ["resolve.rs","package_db/package_db.rs"],[("dependency translation","resolve.rs:requirements_to_pubgrub/get_dependencies"),("range translation","resolve.rs:specifiers_to_pubgrub"),("candidate list","resolve.rs:fetch_and_sort_versions")],"Brief::resolve result against a reference solution check",H)
p("P24","Candidate order: pins first, then the documented preference, best pybi",
 "Among admissible releases the resolver tries the hinted version first, then newer ones in increasing order, then older ones in decreasing order, and without a hint newest first; yanked releases are offered only when pinned by hash, pre-releases only when allowed or nothing else exists. The pybi selected is of the first admissible version (in that order) that has an artifact compatible with any of the platforms, and it is the artifact for the most preferred of them, with the best tag.",
 ["inputs","configurations"],"every set of releases, hints, yank/pre-release/requires-python flags and platforms within the bound",
 "Preference is a property of whole permutations of releases and flags.",
 ["resolve.rs"],[("candidate order","resolve.rs:fetch_and_sort_versions"),("pybi choice","resolve.rs:pick_best_pybi/resolve_pybi")],"version chosen by Brief::resolve",H)
p("P25","Briefs and blueprints survive being stored and loaded",
 "Every brief and blueprint the program can produce serialises to text that loads back to an equal brief or blueprint, whatever the requirements, markers, hashes, extras and pre-release settings are. Loading malformed text is an error, never a panic.",
 ["inputs"],"every brief/blueprint built from symbolic parts within the bound",
 "Field combinations (empty specifier sets, empty pre-release sets, quoting in markers) are not enumerated by tests.",
 ["resolve.rs","vocab/requirement.rs","vocab/specifier.rs"],[("serialisation","resolve.rs:Blueprint/Brief/AllowPre serde"),("marker keys","resolve.rs:serialize_marker_exprs")],"deserialize(serialize(x)) == x",H)
p("P26","Environments install only pinned artifacts, the best compatible one",
 "For every blueprint, index and platform, building an environment uses only artifacts of the pinned name and version whose hash the blueprint lists, choosing the most compatible such artifact on the most preferred platform, and refuses to proceed if the installed metadata differs from what the blueprint recorded. The resulting search paths put the environment's own directories first in blueprint order and the inherited ones after them.",
 ["inputs","configurations"],"every set of artifacts with symbolic tags and hash presence, platform lists and pins within the bound",
 "Best-of-many selection under hash and tag constraints; no unit test builds an environment.",
 ["env.rs","platform_tags/platform.rs"],[("artifact choice","env.rs:pick_pinned_binary"),("metadata check","env.rs:EnvForest::get_env"),("paths","env.rs:Env::env_vars")],"artifact fetched, Env fields, environment variables",H)
p("P27","Local wheel builds: no loops, best cached wheel, correct tags",
 "For every build stack and sdist, a build that would depend on itself is refused with an error instead of recursing, and any other is not. A cached locally built wheel is reused exactly when it is compatible, the most compatible one is chosen, and a wheel recorded in the cache carries the build environment's platform tag exactly when it is platform specific. A build runs in exactly the Python it is for where the index has that, otherwise in the newest one with the same minor version, otherwise in the newest one, whatever was built before.",
 ["inputs","histories"],"every build stack and every set of cached wheels with symbolic tags within the bound",
 "Loops appear only in multi-package histories; cache contents accumulate across runs.",
 ["package_db/build_wheel.rs"],[("loop detection","package_db/build_wheel.rs:WheelBuilder::new_build_stack"),("cached wheel choice","package_db/build_wheel.rs:locally_built_wheel"),("tagging","package_db/build_wheel.rs:pep517")],"wheel returned, error raised, cache directory content",H)
p("P28","Metadata lookups return the metadata of one of the asked artifacts",
 "For every combination of cached metadata, cached artifacts and remote artifacts, a metadata lookup returns the metadata of one of the given artifacts together with that artifact, prefers what is available locally, and never caches metadata under another artifact's hash. An artifact whose internal name or version contradicts its file name, or whose format version is unsupported, is refused.",
 ["inputs","configurations","histories"],"every cache state and artifact list within the bound, symbolic metadata contents",
 "The fallback chain has many cache states that tests do not set up.",
 ["package_db/package_db.rs","vocab/artifact_formats.rs"],[("fallback chain","package_db/package_db.rs:get_metadata"),("artifact checks","vocab/artifact_formats.rs:Wheel::get_vitals, Pybi::metadata")],"(artifact, metadata) returned; cache content",H)
p("P29","Verbosity flags change the log level monotonically",
 "For every combination of verbose and quiet counts, the log level shown never becomes less verbose when a verbose flag is added and never more verbose when a quiet flag is added, equal counts cancel out, and no combination panics. Messages at or above the level are shown.",
 ["inputs","configurations"],"every pair of counts",
 "Counts range over 0..255 each and the mapping is a table.",
 ["output.rs"],[("level table","output.rs:init")],"level filter selected for the posy target",H)
p("P30","Windows launcher resources and native trampolines behave like the script",
 "The prebuilt Windows launchers appended to generated scripts start the interpreter named in the environment with the script and all arguments, and propagate its exit status. The Unix launcher does the same.",
 ["configurations"],"every argument list and environment",
 "Needs the real operating systems.",
 ["trampolines/mod.rs"],[("launcher prefix","trampolines/mod.rs:UNIX_TEMPLATE/WINDOWS_CONSOLE")],"process started by the launcher")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert len(x['title'])<=80,x['title']
print(len(P))
