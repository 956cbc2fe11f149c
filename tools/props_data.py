NOTE = ("Every obligation of the contracts is discharged by Verus/Z3 for all inputs, on code extracted from "
        "/repo's working tree in the same run. Trusted: the listed contracts of std items, and the extraction "
        "rewrites described in DESIGN.md. The driver run next to it is bounded and not counted as proved. ")
SOON = "not built yet"
PROPS = [
 {"id": "P01", "title": "Durations parse to the exact sum and print canonically",
  "statement": "Parsing a duration text succeeds exactly when the text is one or more groups of a decimal count that fits in 64 bits followed by one of the units h, m, s, ms, us, and the exact sum of the groups fits in a duration; it then yields exactly that sum, and every other text gives an error and never a panic. Printing a duration gives the canonical text, largest unit first with zero groups left out and `0s` for zero, and parsing that text gives the same duration back to the microsecond.",
  "q": "all texts, all durations",
  "why": "Unit tests use a handful of literals and the property test only prints durations first, so malformed, huge and multi-group texts near the 64-bit and duration limits are never tried.",
  "files": ["src/duration.rs"],
  "mech": [("group loop with checked arithmetic", "src/duration.rs parse/add_duration"), ("unit decomposition", "src/duration.rs to_string/push_value")],
  "theorems": ["theorem_round_trip"],
  "note": NOTE + "Duration arithmetic of std is assumed."},
 {"id": "P02", "title": "Byte values keep count and unit and convert exactly",
  "statement": "A byte value text is accepted exactly when it is a decimal count that fits in 64 bits followed by nothing or one of the units b, k, kb, m, mb, g, gb (single letters also in upper case), and the parsed value has that count and unit; an integer in a document is that many bytes. Conversion to a number of bytes yields exactly count times unit (decimal thousands), or nothing when that exceeds 64 bits. The printed text has the count and the two-letter unit (`b` for bytes), and parsing it gives back the same value.",
  "q": "all texts, all values, all integers",
  "why": "The tests parse a few literals and round-trip a few values; overflow edges, odd unit spellings and every count are out of their reach.",
  "files": ["src/service/byte_value.rs"],
  "mech": [("count/unit split and unit table", "src/service/byte_value.rs parse_u64, FromStr"), ("checked multiplication", "src/service/byte_value.rs into_bytes"), ("document visitor", "src/service/byte_value.rs Deserialize")],
  "theorems": ["theorem_unique", "theorem_round_trip"],
  "note": NOTE},
 {"id": "P03", "title": "Keys and names are accepted exactly per grammar and kept verbatim",
  "statement": "Each validated key or name type (identifiers, map keys, extension keys, project names, hostnames, user names, ulimit resources, build cache options) accepts a text exactly when it is in that type's documented grammar, through every constructor, conversion and document form alike. An accepted value shows, compares, hashes and serializes as exactly the text it was made from.",
  "q": "all texts",
  "why": "Tests sample generated valid names and a few invalid ones; non-ASCII characters, every position of each character class, and length limits are not enumerated.",
  "files": ["src/common/keys.rs", "src/name.rs", "src/service/hostname.rs", "src/service/user.rs", "src/service/ulimit.rs", "src/service/build/cache.rs"],
  "mech": [("character loops", "new() of each type"), ("generated conversions", "src/common/keys.rs key_impls")],
  "note": NOTE},
 {"id": "P04", "title": "Image references are decomposed exactly and losslessly",
  "statement": "An image text is accepted exactly when it is a valid name (optional registry host with optional port, then lower-case path components), optionally followed by a valid tag or a valid digest; the registry, name, tag and digest reported for it are exactly those parts of the text (a colon with no later slash always starts a tag). An accepted image prints, compares and serializes as exactly the text it was parsed from, and no text makes parsing or any accessor panic.",
  "q": "all texts",
  "why": "The tests generate valid references from a regular expression; the boundaries (which colon starts a tag, which slash ends a registry, separator runs, ports, invalid neighbours of valid texts) are only sampled.",
  "files": ["src/service/image.rs", "src/service/image/name.rs", "src/service/image/tag.rs", "src/service/image/digest.rs"],
  "mech": [("split offsets", "src/service/image.rs parse and accessors"), ("component grammar", "src/service/image/name.rs"), ("tag and digest grammar", "src/service/image/tag.rs, digest.rs")],
  "theorems": ["theorem_unique"],
 "theorems": ["theorem_unique"],
 "note": NOTE},
 {"id": "P05", "title": "Editing an image keeps it valid and changes only the named part",
  "statement": "Building an image from parts, or setting or clearing its registry, name, tag or digest, never panics and always leaves an image equal to the one parsed from its own text, with the requested part equal to what was given (or absent) and the remaining parts as they were, except that a tag replaces a digest and a digest replaces a tag. This is for a registry given as a bare host with optional port, names that have a path after a registry with a port; clearing the registry of a name that is nothing else keeps it, and what is left after clearing is the text after the registry. Converting an image to its borrowed parts and back yields an equal image.",
  "q": "all images, all parts, all sequences of edits",
  "over": ["inputs", "histories"],
  "why": "Tests edit a few literal images once; offset bookkeeping only breaks for particular sequences of edits and particular part combinations.",
  "files": ["src/service/image.rs"],
  "mech": [("offset bookkeeping", "src/service/image.rs set_registry/set_name/set_tag/set_digest/set_tag_or_digest/from_parts")],
  "note": NOTE},
 {"id": "P06", "title": "Port ranges are ordered, exactly sized and print back",
  "statement": "A port range that can be constructed or parsed has a start not greater than its end; a text is accepted exactly when it is a 16-bit port number or two of them in order joined by `-`. The size of a range is the number of ports it contains, containment and iteration agree with the bounds, and printing gives the single number or `start-end`, which parses back to an equal range.",
  "q": "all pairs of ports, all texts",
  "why": "Tests check a few ranges; reversed ranges, the full range and single-port ranges hit arithmetic edges they do not reach.",
  "files": ["src/service/ports.rs", "src/service/expose.rs"],
  "mech": [("validated constructor", "src/service/ports.rs Range::new"), ("parsing", "src/service/ports.rs FromStr for Range"), ("size", "src/service/ports.rs Range::size")],
  "theorems": ["theorem_canonical", "theorem_range_round_trip", "theorem_expose_round_trip"],
  "note": NOTE},
 {"id": "P07", "title": "Short port syntax parses exactly and pairs equal host/container ranges",
  "statement": "A short port text `[[ip:][host]:]container[/protocol]` is accepted exactly when its parts are valid and a host range, if present, has as many ports as the container range; the parsed value has exactly those parts and its printed text parses back to an equal value. Listing the individual mappings, and converting a short port to long ports and back, pairs the i-th host port with the i-th container port and loses nothing.",
  "q": "all texts, all range pairs",
  "why": "Tests cover a few shapes; bracketed IPv6 hosts, ranges, empty parts and the many combinations are sampled at best.",
  "files": ["src/service/ports.rs"],
  "mech": [("text splitting", "src/service/ports.rs FromStr for ShortPort"), ("equal-size pairing", "src/service/ports.rs ShortRanges::new and its iterator"), ("long conversion", "src/service/ports.rs into_long_iter, into_short")],
  "theorems": ["theorem_ranges_round_trip", "theorem_short_round_trip"],
  "note": NOTE},
 {"id": "P08", "title": "CPU set texts denote exactly the listed CPUs",
  "statement": "A CPU set text is accepted exactly when it is empty or a comma-separated list of CPU numbers and `start-end` ranges (one trailing comma allowed), and denotes exactly the union of the numbers and inclusive ranges listed, a reversed range listing nothing. The printed text lists the set's CPUs in increasing order with runs collapsed, and parses back to an equal set.",
  "q": "all texts, all sets",
  "why": "The tests use one example; run collapsing at the ends, overlapping and adjacent ranges are not covered.",
  "files": ["src/service/cpuset.rs"],
  "mech": [("range expansion", "src/service/cpuset.rs FromStr"), ("run collapsing", "src/service/cpuset.rs Display")],
  "theorems": ["theorem_runs", "theorem_round_trip", "theorem_reversed"],
  "note": NOTE},
 {"id": "P09", "title": "Device mappings and cgroup rules round-trip exactly",
  "statement": "A device mapping `host:container[:permissions]` is accepted exactly when the container path is absolute and the permissions are valid, and a cgroup rule `type major:minor [permissions]` exactly when its type is a, b or c, each number is empty, `*` (all) or fits in 16 bits, and the permissions are valid. Permissions are any string of the letters r, w, m (none when missing), with no other letter. The parsed value has exactly the parts of the text, and its printed text parses back to an equal value.",
  "q": "all texts, all permission sets",
  "why": "Tests parse a few literals; permission letter combinations and partial forms are not enumerated.",
  "files": ["src/service/device.rs"],
  "mech": [("splitting and defaults", "src/service/device.rs FromStr impls"), ("permission letters", "src/service/device.rs Permissions")],
  "theorems": ["theorem_perms_round_trip", "theorem_num_round_trip", "theorem_device_parts", "theorem_device_round_trip", "theorem_rule_round_trip"],
  "note": NOTE},
 {"id": "P10", "title": "Tagged strings parse to one variant and print back",
  "statement": "Every string-encoded choice (network modes, IPC modes, links, volume sources for `volumes_from`, users and groups, build networks, build caches, SSH authentication, drivers, endpoint modes, device capabilities, protocols, MAC addresses and the plain enumerations) parses a text to the one variant its prefix or keyword selects, carrying exactly the remaining text, and rejects texts outside its format. Printing a parsed value gives a text that parses back to an equal value, and texts that are not a keyword are never rewritten.",
  "q": "all texts",
  "why": "Each type has at most a couple of literal tests; texts close to a keyword or with odd separators are not covered.",
  "files": ["src/service/network_config.rs", "src/service.rs", "src/service/user.rs", "src/service/build/network.rs", "src/service/build/cache.rs", "src/service/build/ssh_auth.rs", "src/network.rs", "src/service/deploy/endpoint_mode.rs", "src/service/deploy/resources.rs"],
  "mech": [("keyword and prefix matching", "parse() of each type"), ("printing", "Display of each type")],
  "theorems": ["theorem_network", "theorem_em", "theorem_cap", "theorem_dr", "theorem_count", "theorem_cgroup", "theorem_condition", "theorem_pullpolicy", "theorem_restart", "theorem_action", "theorem_deploy_mode", "theorem_restartcondition", "theorem_failureaction", "theorem_order", "theorem_bindpropagation", "theorem_mode", "theorem_ipc", "theorem_link", "theorem_source", "theorem_volumes_from", "theorem_ssh", "theorem_id", "theorem_user"],
  "note": NOTE},
 {"id": "P11", "title": "Volume mounts convert between short and long form without loss",
  "statement": "A short volume text `[source:]container_path[:options]` is accepted exactly when its parts are valid and the parsed value has exactly those parts; its printed text parses back to an equal value. Converting a short volume to its long form and back gives an equal short volume, and a long mount is turned into short form only when the short form says everything the long one says, and is otherwise returned unchanged.",
  "q": "all texts, all mounts",
  "why": "The tests cover a few options on a few paths; a dropped option shows only for particular combinations of fields.",
  "files": ["src/service/volumes.rs", "src/service/volumes/mount.rs"],
  "mech": [("text splitting", "src/service/volumes.rs ShortVolume"), ("conversion", "src/service/volumes.rs into_long; src/service/volumes/mount.rs into_short")],
  "theorems": ["theorem_volume_source", "theorem_volume_options", "theorem_volume_round_trip", "theorem_volume_parsed", "theorem_short_says_all", "theorem_volume_there_and_back"],
  "note": NOTE,},
 {"id": "P12", "title": "Absolute and host paths keep their form under every operation",
  "statement": "An absolute path value always is absolute, and a host path value always is absolute or has `.` or `..` as its first component; construction accepts exactly the paths of that form and keeps them verbatim, and pushing, popping or otherwise editing such a value never leaves one that its constructor would reject.",
  "q": "all paths, all sequences of edits",
  "over": ["inputs", "histories"],
  "why": "Tests construct a few paths and never edit them.",
  "files": ["src/service/volumes.rs"],
  "mech": [("validated constructors", "src/service/volumes.rs AbsolutePath::new, HostPath::new")],
  "theorems": ["theorem_absolute_edits", "theorem_host_edits", "theorem_absolute_is_host"],
  "note": NOTE,},
 {"id": "P13", "title": "Bounded numbers accept exactly their documented range",
  "statement": "Percentages (0-100), OOM score adjustments (-1000 to 1000), block IO weights (10-1000), CPU amounts (finite and not negative, negative zero counting as negative) and limits (a number, or -1 for unlimited) accept exactly the values in their documented range through every constructor, conversion and document form. The accepted value is reported and serialized unchanged.",
  "q": "all numbers of the accepting types",
  "why": "Tests try single values; the range ends and special floating-point values are not covered.",
  "files": ["src/service.rs", "src/service/blkio_config.rs", "src/service/deploy/resources.rs", "src/service/limit.rs"],
  "mech": [("range checks", "new()/try_from of each type")],
  "theorems": ["theorem_limit_u64", "theorem_limit_u32"],
  "note": NOTE},
 {"id": "P14", "title": "Validation accepts a file exactly when all references resolve",
  "statement": "Validating the networks, configs and secrets of a file succeeds exactly when each one named by a service (in short or long form, and for secrets also by its build) is defined at the top level; validating volumes succeeds exactly when each named volume mounted by two or more different services (in short or long form) is defined there. The message of a failure says which kind of resource it is about, names one which really is so used and not defined, and, except for volumes, a service using it. Validating everything reports the first failure in the order networks, volumes, configs, secrets.",
  "q": "all files",
  "over": ["inputs"],
  "why": "Tests check one missing reference of each kind; references in second services, long and short syntax and build sections vary independently.",
  "files": ["src/lib.rs", "src/service.rs"],
  "mech": [("reference walk", "src/lib.rs Compose::validate_*; src/service.rs Service::validate_*")],
  "theorems": ["lemma_vol_end"],
  "note": NOTE},
 {"id": "P15", "title": "Mutually exclusive settings are one choice or an error",
  "statement": "Where a document offers mutually exclusive keys (config and secret sources, credential specs, build Dockerfile forms, environment files, network and network mode, the healthcheck command and disable), a document is accepted exactly when it gives a permitted number of them, in any order, and the resulting value is the choice given; conflicting, missing or repeated keys are an error. A top-level resource is either external, with at most a name, or has its own settings without `external: true`. Serializing the value gives back the same keys, and reading those gives an equal value.",
  "q": "all combinations and orders of the keys",
  "why": "Tests read one accepted document per choice and rarely a conflicting one.",
  "files": ["src/config.rs", "src/secret.rs", "src/common.rs", "src/service/credential_spec.rs", "src/service/build/dockerfile.rs", "src/service/healthcheck.rs", "src/service/network_config.rs", "src/service/env_file.rs"],
  "mech": [("hand-written visitors and deserializers", "Deserialize impls of Source, Dockerfile, NetworkConfig, CredentialSpec, Healthcheck, Resource"), ("serializers", "Serialize impls of the same types")],
  "theorems": ["theorem_config", "theorem_secret", "theorem_dockerfile", "theorem_network_config", "theorem_one_kind", "theorem_credential", "theorem_disable", "theorem_healthcheck", "theorem_external", "theorem_compose", "theorem_one_kind_resource"],
  "note": NOTE + "serde and serde_yaml are a trusted model; derived (de)serializers are trusted with a contract generated from the type's own text."},
 {"id": "P16", "title": "Lists, maps and scalar values convert without loss",
  "statement": "Splitting a list of texts into a map succeeds exactly when the part of every entry before its first delimiter is a valid key; the map holds each key at its first place with the value of its last entry, where a missing or empty value is none, `true` and `false` are booleans, a text that prints back the same as a number is that number, and any other is kept verbatim. Turning a map into a list joins key and value with `=`, each text once, so a list with distinct keys that is split and joined again has the same entries (less an empty value). `extra_hosts` and `additional_contexts` are read from documents through the same splitting. The text of a number is an integer exactly when it is an optional sign and digits, else what the standard float syntax reads; conversions between scalars, numbers, integers and floats give the same value or fail.",
  "q": "all lists, maps and scalar values",
  "why": "Tests convert a few small lists; entries with several `=`, empty values, repeated keys and extreme numbers are not covered.",
  "files": ["src/common.rs", "src/common/keys.rs", "src/service.rs", "src/service/build.rs", "src/service/hostname.rs", "src/serde.rs"],
  "mech": [("list and map conversion", "src/common.rs ListOrMap, src/service.rs extra_hosts, src/service/build.rs additional_contexts"), ("scalar conversion", "src/common.rs Value, Number, StringOrNumber"), ("item or list", "src/common.rs ItemOrList")],
  "theorems": ["theorem_integer_text", "theorem_scalar_text", "theorem_list_map_list", "theorem_entry_back"],
  "note": NOTE + "indexmap collections, std number parsers and printers are trusted models; floats are uninterpreted."},
 {"id": "P17", "title": "Short and long forms collapse only without loss",
  "statement": "A long-form value has a short form exactly when every field other than the short one is not set or at its default, and expanding that short form gives an equal long form; a map has a list of its keys as short form exactly when each of its values is the default (a network without options counting as none), and an include given as a list of one path has that path. A value reports itself as empty exactly when none of its fields is set, an empty list or map or a part with nothing in it counting as not set, and a field is left out of a written document only when what a missing key stands for is the same.",
  "q": "all values, all subsets of set fields",
  "why": "Tests collapse a few values; forgetting one field only shows when exactly that field is set.",
  "files": ["src/common/short_or_long.rs", "compose_spec_macros/src/as_short.rs", "src/service/ulimit.rs", "src/service/build.rs", "src/service/deploy.rs", "src/service/deploy/resources.rs", "src/service/volumes/mount.rs", "src/service/network_config.rs", "src/service/env_file.rs", "src/include.rs", "src/network.rs", "src/volume.rs", "src/serde.rs", "src/service/healthcheck.rs"],
  "mech": [("derived short forms", "compose_spec_macros as_short"), ("emptiness checks", "is_empty functions"), ("fields left out", "skip_serializing_if and default attributes of every type"), ("lists of keys", "AsShortIter of networks and depends_on")],
  "theorems": ["theorem_networks", "theorem_depends_on"],
  "note": NOTE + "indexmap collections and std `Default`s are trusted models; what a missing key means follows the documented meaning of serde's `default` attribute."},
 {"id": "P18", "title": "Platform texts parse to the matching platform and print back",
  "statement": "A platform text `os[/arch[/variant]]` parses to the platform of that operating system, architecture and variant, and a text naming no supported combination is an error. Printing a platform gives a text that parses back to an equal platform, different platforms print differently, and exactly the supported combinations of operating system and architecture are platforms. The same holds for operating systems, architectures and variants on their own, and an architecture converts to that of an operating system exactly when supported there, and back to itself.",
  "q": "all texts, all platforms",
  "why": "Tests parse a handful of the 110 combinations, and no test compares them all with what their texts say.",
  "files": ["src/service/platform.rs", "compose_spec_macros/src/platforms.rs", "compose_spec_macros/src/platforms/os.rs", "compose_spec_macros/src/platforms/arch.rs"],
  "mech": [("generated tables", "platforms! macro in src/service/platform.rs")],
  "theorems": ["theorem_round_trip", "theorem_platform", "theorem_supported"],
  "note": NOTE + "The functions are taken from the compiler-expanded crate, i.e. from what the `platforms!` macro generates."},
 {"id": "P19", "title": "Equality, hashing and order agree with what values hold",
  "statement": "Two values of the crate's types are equal exactly if they are the same in every field: a port or mount that differs from another in any one field or extension is not equal to it, and two read from the same document are equal. Equality is symmetric and agrees with copies; equal values hash alike, so a value is found again in a set or map and distinct values are never taken for one another there; where values are ordered, the order is a total order that agrees with equality. Names, hostnames, images and their parts are compared, hashed and ordered as their texts, whichever way they were made, and comparing a value with a text or number is the same as comparing it with the value made from it.",
  "q": "all pairs of values",
  "why": "Tests compare values only where they are expected to be equal, and never hash or order them.",
  "files": ["src/service/ports.rs", "src/service/volumes/mount.rs", "src/common.rs", "src/service/image.rs", "src/service/image/name.rs", "src/service/image/tag.rs", "src/service/image/digest.rs", "src/common/keys.rs", "src/service/deploy/resources.rs", "src/service/device.rs", "src/service/blkio_config.rs", "src/service.rs"],
  "mech": [("hand-written PartialEq and Hash", "Port, VolumeOptions, BindOptions, TmpfsOptions, Common, ItemOrList, Image, Name"), ("comparison with texts and numbers", "PartialEq<str>, PartialEq<u64>, … impls")],
  "theorems": ["theorem_port", "theorem_volumeoptions", "theorem_bindoptions", "theorem_tmpfsoptions", "theorem_common", "theorem_borrow"],
  "note": NOTE + "Derived comparisons are rustc's; std and indexmap collections compare and hash what they hold (trusted)."},
 {"id": "P20", "title": "Documents survive reading and writing",
  "statement": "Reading a Compose file, writing it and reading it again gives an equal value, and writing that gives the same text: no field, element, key order or extension value is lost, changed or mistaken for another on the way, except that a list or map with nothing in it may be left out. No two fields of one value share a name, and none has the name of an extension (`x-…`). Numbers in the range of their field are kept exactly and others refused, never wrapped. A value that may be written in two forms (an item or a list, a short form or a full map, a text or a list of arguments, a list or a map of key-value pairs) is read from whichever form it is given in, and a list of key-value pairs denotes the map of those pairs. Reading from text, bytes, a reader or an already parsed value gives the same answer, and the merge keys (`<<`) are merged exactly when the options ask for it.",
  "q": "all documents, all values, all options",
  "why": "One full example document is round-tripped; field values at their limits, the order of keys, the alternative forms and the other ways of reading are not compared.",
  "files": ["src/lib.rs", "src/options.rs", "src/common.rs", "src/common/short_or_long.rs", "src/service.rs", "src/service/env_file.rs", "src/serde.rs"],
  "mech": [("derived serialization", "serde attributes of every type"), ("alternative forms", "visitors of ShortOrLong, ItemOrList, Command, EnvFile, ListOrMap"), ("options", "Options::from_yaml_* in src/options.rs")],
  "theorems": ["theorem_survives", "theorem_choice", "theorem_item_or_list", "theorem_command", "theorem_env_file", "theorem_list_or_map", "theorem_same"],
  "note": NOTE + "serde's derives are taken as documented: what an attribute says is what is done; serde_yaml itself is trusted. Text that repeats a key, or gives null for a list or map, is outside the comparison between reading text and reading a parsed value (serde_yaml treats the two differently)."},
 {"id": "P22", "title": "Conversions, accessors and defaults neither lose nor invent anything",
  "statement": "A value converted from others (a mount, volume source or bind option from its parts, a user from ids and names, a command, test or healthcheck from a text or list, a resource, config, secret, include or environment file from what it is about, a limit from a number, an image from its parts) holds exactly what it was made from, in its place, and nothing else; converting back or reading it through its accessors gives that again. A mount's kind is the `type` its document has, exactly one of its `is_…`/`as_…` accessors answers, its common options and source are its own, and an external resource is never taken for one managed by compose. Enumerations give the text they are written as, and defaults are the documented ones.",
  "q": "all values",
  "why": "Hardly any conversion or accessor is called by a test, and those that are, with one literal.",
  "files": ["src/service/volumes/mount.rs", "src/service/volumes.rs", "src/service/user.rs", "src/common.rs", "src/common/short_or_long.rs", "src/service.rs", "src/service/healthcheck.rs", "src/service/ulimit.rs", "src/config.rs", "src/secret.rs", "src/include.rs", "src/service/env_file.rs", "src/service/image.rs"],
  "mech": [("conversions", "From impls of every type"), ("accessors", "Mount, Resource, SELinux, IdOrName"), ("defaults", "Default impls, derived ones taken from the compiler-expanded crate")],
  "theorems": [],
  "note": NOTE},
 {"id": "P23", "title": "Build contexts are the URL or path their text spells",
  "statement": "A build context read from a text is that URL if the text is one, and otherwise the path of the same text, whichever of the conversions reads it; one made from a path or URL is that path or URL, and the default is the current directory. Exactly http and https URLs whose path ends in the extension `git`, in whatever case, are Git repositories; their branch or tag and subdirectory are the URL's fragment before and after its first colon (the whole fragment and none, if it has no colon), and other contexts have neither. A context gives its text back, and reading that text again gives an equal context.",
  "q": "all texts, all URLs",
  "why": "One test reads one URL; the other schemes, extensions, fragments and conversions are not tried.",
  "files": ["src/service/build/context.rs"],
  "mech": [("text to context", "Context::parse, From and FromStr impls"), ("git fragment", "branch_or_tag, subdirectory, is_git_repo_url")],
  "theorems": ["theorem_context"],
  "note": NOTE + "The url crate's reading and writing of URLs, and std's of path extensions, are assumed as contracts."},
 {"id": "P21", "title": "No document makes reading panic, hang or exhaust memory",
  "statement": "Reading any text as a compose document ends in a value or an error, never a panic, abort, endless loop or unbounded memory use out of proportion to the text.",
  "q": "all texts",
  "why": "Only well-formed documents are read by the tests.",
  "files": ["src/lib.rs", "src/options.rs", "src/service/cpuset.rs"],
  "mech": [("fallible parsers", "FromStr and Deserialize impls")],
  "note": NOTE, "na": "Most of the reading path is inside serde_yaml and derived code that the verifier cannot take under contract; absence of panics is discharged, function by function, for the hand-written parsers as part of their own properties."},
]
