#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below.
A property is claimed when a rule is registered for it; otherwise it needs an entry in NA."""
import json, os, sys, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "sa"))
P = []


def prop(id, title, statement, over, q, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=q), why_tests_cant=why,
                  anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech])))


prop("C01", "Conflict resolution follows the documented table for every pair of values",
     "When a key exists both in a figment and in a provider combined into it, merge and admerge keep the provider's value, join and adjoin keep the existing one; if both are dictionaries they are combined recursively with the same strategy, and if both are arrays adjoin and admerge concatenate them, existing elements first. This holds for every pair of value kinds, at every nesting depth and independently in every profile. Nothing else about either value changes.",
     "inputs histories", "every pair of value kinds, every pair of (possibly nested) data maps, every combining method",
     "the tests combine a handful of literal documents; the table ranges over all kind pairs, depths, keys and profiles",
     "src/coalesce.rs src/figment.rs", [("coalescing of two values and of two maps", "src/coalesce.rs"), ("provider combination", "src/figment.rs: merge, join, adjoin, admerge")])
prop("C02", "Combining never loses or invents a key, and empty providers are neutral",
     "After combining a provider into a figment, a key (in any profile, at any dictionary depth where both sides hold dictionaries) exists exactly if it existed on at least one side. Combining a provider without data leaves the existing data unchanged, and combining into an empty figment yields exactly the provider's data. Joining B onto A gives the same data as merging A onto B.",
     "inputs histories", "all data maps on both sides, all four combining methods",
     "tests look at chosen keys of chosen documents; a lost or invented key elsewhere goes unseen",
     "src/coalesce.rs src/figment.rs", [("map coalescing", "src/coalesce.rs"), ("provider combination", "src/figment.rs")])
prop("C03", "Extraction sees default data overridden by the selected profile, then global",
     "Every extraction and lookup operates on the default profile's data merged with the selected profile's data, if the selected profile is custom and present, merged with the global profile's data; later layers win, dictionaries merge recursively. Data in any other profile is never visible. Selecting default or global itself adds no layer, and a missing layer counts as empty.",
     "inputs configurations", "every subset of present profiles, every selected profile name, every data map",
     "tests fix a few profile layouts; the layering must hold for every subset of profiles and every key",
     "src/figment.rs src/coalesce.rs", [("profile layering", "src/figment.rs: find_value, extract*")])
prop("C04", "Only select, merge and admerge change the selected profile",
     "A new figment selects the default profile. Merging or admerging a provider that names a profile selects that profile, joining or adjoining it does not, and a provider naming none never does; this also holds when the provider or the figment is in error. Selecting replaces the profile and touches nothing else; focusing and every read keep it.",
     "histories inputs", "every sequence of combining, selecting and focusing operations, every provider",
     "tests exercise short sequences; the rule is about every operation in any order including failing ones",
     "src/figment.rs src/provider.rs", [("profile coalescing", "src/figment.rs"), ("profile of a provider", "src/provider.rs")])
prop("C05", "Every value stays attributable to the provider that supplied it",
     "After combining a provider, every value it supplied, at any depth, refers to the metadata that provider reported (with its provide location set to the caller), and to the profile it was supplied in when that is default or global. Values already attributed, such as those of a combined figment, keep their attribution, and the combined figment's metadata is carried over. Where two dictionaries combine, the dictionary is attributed to the winning side and every leaf to its own supplier.",
     "inputs histories", "every provider, value tree and combining method, including figments used as providers",
     "tests check the metadata of a few leaves; attribution must be right for every node of every tree",
     "src/figment.rs src/value/value.rs src/value/tag.rs src/coalesce.rs", [("tagging of provided values", "src/figment.rs"), ("tag of a value", "src/value/tag.rs")])
prop("C06", "Provider identities are unique, never the default, and ignore the profile",
     "Each combination of a provider gets a fresh identity that no earlier or concurrent one had and that is never the default identity; when identities run out the process panics rather than reusing one. Identities compare, order and hash consistently and regardless of the profile recorded next to them, and the recorded profile is returned as default, global or, for custom profiles, none. Identities survive serialization and deserialization.",
     "schedules histories inputs", "all interleavings of threads combining providers, all identities and profiles",
     "uniqueness under concurrency and near exhaustion cannot be sampled; the bit layout must be right for every value",
     "src/value/tag.rs src/profile.rs", [("tag allocation and bit layout", "src/value/tag.rs")])
prop("C07", "Provider errors are sticky, never lost and reported in order",
     "Once a provider failed, every extraction and lookup on the figment fails, whatever is combined later, until the end. Every failing provider's errors are part of the reported error, exactly once, the first failure reported first and later ones after it in order; a successful provider adds none. Each one is attributed to the provider that caused it.",
     "histories fault_sequences", "every sequence of succeeding and failing providers",
     "tests use at most one or two failing providers; the chain must be complete for any number, in any position",
     "src/figment.rs src/error.rs", [("error chaining", "src/error.rs: chain, into_iter, count"), ("error state of a figment", "src/figment.rs")])
prop("C08", "Extraction errors carry the exact path and the provenance of the offending value",
     "An error raised while extracting a value names the keys and array indices from the extraction root down to the offending value, in order, including the path handed to an inner extraction, and no internal names. It carries the metadata of the provider that supplied the offending value and the profile it came from, falling back to the selected profile. Attribution set by a deeper level is never overwritten by an outer one.",
     "inputs", "every target type, value tree and position of the offending value",
     "tests fix a few paths; the property ranges over nesting shapes and error kinds",
     "src/value/de.rs src/error.rs src/figment.rs", [("error wrapping while descending", "src/value/de.rs"), ("error resolution", "src/error.rs")])
prop("C09", "All lookup and extraction entry points agree",
     "For any figment and key path, looking up the value, testing whether it is contained, finding its metadata and extracting at that path (strictly or lossily) address the same value: they succeed or report it missing together. An inner extraction deserializes exactly the value the lookup returns, and a missing path is reported as a missing field naming that path.",
     "inputs configurations", "every figment and key path, including empty segments",
     "each entry point is tested alone on a few paths; agreement is over all of them",
     "src/figment.rs src/value/value.rs", [("lookups", "src/figment.rs: find_value, contains, find_metadata, extract_inner*")])
prop("C10", "Dotted key paths mean the same everywhere",
     "A dotted path addresses nested dictionaries segment by segment; an empty segment ends the path, so the empty path addresses the value itself. Owned and borrowed lookup, nesting a value under a path and focusing a figment on a path all follow this: what is nested under a path is found at that path, and focusing keeps, in each profile, exactly the dictionary found there, dropping profiles without one and keeping the selected profile, the metadata and a held error.",
     "inputs", "every path and value tree",
     "tests use a few literal paths; agreement between the operations is over all paths and trees",
     "src/value/value.rs src/util.rs src/figment.rs", [("path walking", "src/value/value.rs: find, find_ref; src/util.rs: nest; src/figment.rs: focus")])
prop("C11", "Serializing into a value preserves the data model",
     "Serializing any value keeps booleans, characters, strings and every number at its own width, maps none and unit to distinct empty values, sequences, tuples and bytes to arrays in order, maps and structs to dictionaries entry by entry, newtypes to their content, and enum variants to their name or to a single-entry dictionary from the name to the content. A map key that is not a string is an error, never dropped or renamed. Serializing a value itself reproduces it unchanged.",
     "inputs", "every serializable value",
     "tests serialize a few structs; each data-model case and any element count must be right",
     "src/value/ser.rs src/value/value.rs", [("serializer into values", "src/value/ser.rs")])
prop("C12", "Deserialization presents stored data exactly",
     "Deserializing a stored value presents to the target exactly the stored kind and content: scalars as themselves, every dictionary entry once in key order, every array element once in order with the right remaining length, an empty value as none or unit, anything else as some, a string, a one-entry dictionary or a small unsigned number as an enum. The plain and the configured deserializer present the same data. Reading a value back as a value gives an equal value with the same attribution.",
     "inputs programs", "every stored value and target type",
     "tests extract a few target types; the presentation must be right for each stored kind and each request",
     "src/value/de.rs", [("deserializers over stored values", "src/value/de.rs")])
prop("C13", "Numeric conversions never change a number's value",
     "Converting a stored number to another numeric representation yields the mathematically equal number or nothing, for every stored width and every value, including the extremes. Machine-word integers are presented at a width that holds them exactly. Numbers compare equal exactly if they have the same signedness class and the same value, regardless of width.",
     "inputs", "all numbers of all stored widths",
     "tests try small numbers; the extremes of twelve integer widths are the interesting inputs",
     "src/value/value.rs src/value/de.rs src/value/ser.rs", [("conversions of numbers", "src/value/value.rs: Num; src/value/de.rs: Num deserializer")])
prop("C14", "Lossy extraction only relaxes booleans and numbers",
     "Lossy extraction differs from strict extraction only where a boolean or a number is requested: a string spelled, ignoring case, true, yes, 1 or on reads as true, and false, no, 0 or off as false; the numbers 0 and 1 read as booleans; a string reads as the number it parses to. Anything else behaves as in strict extraction, at every depth. Strict extraction never converts between kinds.",
     "inputs programs", "every stored value, requested type and depth",
     "tests try a few spellings; the claim is about every kind, request and nesting level",
     "src/value/de.rs src/value/value.rs", [("interpreters", "src/value/de.rs"), ("lossy conversions", "src/value/value.rs")])
prop("C15", "Environment keys are selected and normalized as configured, in order",
     "An environment provider yields exactly the variables whose trimmed name passes every configured prefix, filter and mapping, applied in the order they were configured to the result of the previous step; names are lower-cased unless disabled, and names that are empty or contain an empty segment are dropped. A prefix matches case-insensitively and is removed, splitting replaces every occurrence of the pattern by a dot, only and ignore compare whole keys case-insensitively. No builder step discards or resets an earlier setting. The data is every key nested at its segments, later variables overriding earlier ones and dictionaries being merged, in exactly the configured profile. Looking up one variable finds the first whose trimmed name matches, ignoring case, and gives its trimmed text.",
     "configurations inputs", "every chain of builder calls and every environment",
     "tests set a few variables and short chains; the order and independence of settings is over all chains",
     "src/providers/env.rs", [("environment provider", "src/providers/env.rs")])
prop("C16", "Environment values parse totally, without panicking, by the documented syntax",
     "Parsing an environment value always yields a value: a well-formed, completely consumed literal yields what it denotes, anything else the trimmed text as a string. Leading and trailing whitespace never matters, and separators inside nested arrays and dictionaries are treated alike. No input makes the parser panic or drop part of the text.",
     "inputs", "every string, including non-ASCII and malformed ones",
     "tests list literals; totality and absence of panics range over all strings",
     "src/value/parse.rs src/value/escape.rs", [("value parser", "src/value/parse.rs"), ("escape decoding", "src/value/escape.rs")])
prop("C17", "File providers find, require and nest their source as configured",
     "A file provider reads the absolute path itself, or the first existing file of that relative path in the working directory and then, if searching, its ancestors, nearest first. A missing file is empty data unless required, in which case it is an error naming the file; unreadable or malformed sources are errors, never empty data. Unnested data goes entirely into the configured profile, nested data into the profiles named by its top-level keys, and each builder setting is independent of the order of the others.",
     "inputs configurations fault_sequences", "every path, directory layout and builder chain",
     "tests lay out a few directories; the policy is over all combinations of settings and outcomes",
     "src/providers/data.rs", [("file resolution and reading", "src/providers/data.rs")])
prop("C18", "Profile names are one name regardless of letter case",
     "Profiles are compared, ordered, hashed, looked up and classified as default, global or custom ignoring ASCII case, consistently across every comparison offered, while the spelling given is what is displayed and serialized. A profile read from the environment matches the variable's trimmed name case-insensitively and takes its value verbatim.",
     "inputs", "all pairs of names and all comparison forms",
     "tests compare a few names; the comparisons must agree for all of them",
     "src/profile.rs", [("profile comparisons", "src/profile.rs")])
prop("C19", "Providers report truthful metadata",
     "The metadata of a file provider names its format and, as its source, the file it loads (the configured path if there is none), that of a string provider its format and no source, that of a serialized provider the wrapped type and the call site of its constructor, that of an environment provider the upper-cased prefix, and none of this depends on the other settings. Paths are rendered in the provider's own notation, environment keys upper-cased and dotted, others as profile and dotted keys. Metadata builders set exactly the part they name, conversions into sources and accessors keep the kind and content of the source, and metadata is equal exactly if name and source are.",
     "inputs configurations", "every provider configuration",
     "tests check a few messages; the reported source must be right for every configuration",
     "src/metadata.rs src/providers/data.rs src/providers/env.rs src/providers/serialized.rs", [("metadata of providers", "src/providers/*.rs"), ("metadata builders", "src/metadata.rs")])
prop("C20", "Provenance-aware values carry the true source of what they wrap",
     "A relative path extracted from a configuration remembers the file it was configured in, resolves against that file's directory exactly if it is relative and was read from a file, and keeps its original text; serializing and re-reading it loses nothing. A tagged value carries the identity of the value it wraps. An alternative of two types yields the first if it can be read and otherwise the second, reporting both failures if neither can.",
     "inputs programs", "every wrapped type, value and source",
     "tests wrap a few values; resolution must be right for every kind of source and wrapped type",
     "src/value/magic.rs src/value/de.rs", [("magic values", "src/value/magic.rs")])
prop("C21", "A jail restores environment and working directory on every exit",
     "Whatever happens inside a jail, success, error or panic, leaving it restores every environment variable it changed to the value or absence it had before the first change, and the working directory. At most one jail is active at a time, and its exclusion ends only after everything is restored and its directory is removed. The result of the closure is reported faithfully.",
     "crash_points histories schedules", "every sequence of environment and directory changes, every exit, every interleaving of jails",
     "tests leave jails normally with a few variables; the property is about every exit and every repetition",
     "src/jail.rs", [("saved environment and restoration on drop", "src/jail.rs"), ("global lock", "src/jail.rs")])
prop("C22", "Jail file operations stay inside the jail directory",
     "Every file and directory operation of a jail resolves dots lexically and acts on the resolved path, which is either relative and cannot climb above its base, or absolute and inside the jail's directory; any other path is refused before anything is touched. Contents are written completely or an error is reported.",
     "inputs fault_sequences", "every path",
     "tests try a few escaping paths; containment is over all paths",
     "src/jail.rs", [("path sanitizing", "src/jail.rs")])
prop("C23", "Reading a figment never changes it, and figments are safe to share",
     "Extracting, looking up, focusing and inspecting never modify the figment or any global state, so any number of reads in any order and on any number of threads give the same results. Figments, values, errors and metadata can be sent and shared between threads. Combining reads a provider's data exactly once, at the time it is combined.",
     "schedules histories", "all sequences and interleavings of reads",
     "no test can show the absence of hidden state; it is a fact about every reachable function",
     "src/figment.rs src/value/de.rs src/metadata.rs", [("read paths", "src/figment.rs"), ("shared types", "src/*.rs")])
prop("C24", "Wrapping a provider is transparent",
     "A reference to a provider behaves as the provider in every respect, a figment used as a provider supplies its data, its selected profile and its metadata, and a key-value pair is the value serialized at that key in the global profile. Serialized providers put the value, at their key if they have one, into exactly their profile, and refuse data that is not a dictionary.",
     "inputs programs", "every provider type and value",
     "tests wrap one or two providers; transparency is about each operation of every wrapper",
     "src/provider.rs src/figment.rs src/providers/serialized.rs", [("provider wrappers", "src/provider.rs, src/figment.rs, src/providers/serialized.rs")])
prop("C25", "Errors are rendered completely and counted correctly",
     "The text of an error names its kind with all its details, the key as rendered by the provider's notation when path, profile and metadata are known, the source and provider name when known, and then each chained error on its own line. The count of an error is the number of errors its iteration yields, each yielded once from the newest failure's perspective in the stored order. Every deserialization problem is converted to the matching kind without losing details.",
     "inputs", "every error kind and chain length",
     "tests render a few errors; the composition must be right for every kind and chain",
     "src/error.rs", [("rendering and iteration of errors", "src/error.rs")])
prop("C26", "Relative display of source paths denotes the same file",
     "However a source file is displayed, shortened relative to the working directory or in full, the displayed path, resolved lexically against the working directory, denotes the same file as the stored path. If the working directory is unknown, the stored path is displayed. The difference of two paths is computed exactly: joined to the base it denotes the path; there is none if only one is absolute, and there is always one if both or neither are and the base has no parent components.",
     "inputs", "every pair of paths",
     "tests compute a few path differences",
     "src/util.rs src/metadata.rs", [("path difference", "src/util.rs")])
prop("C27", "Deeply nested input does not exhaust the stack",
     "No configuration value, however deeply nested, makes parsing, combining or extracting overflow the stack.",
     "inputs", "every nesting depth",
     "a test can only show that some depth works",
     "src/value/parse.rs src/coalesce.rs src/value/de.rs", [("recursion over values", "src/value/*.rs")])
prop("C28", "Floating point numbers survive a textual round trip",
     "A floating point number written to text in a supported format and read back through the matching provider is the same number.",
     "inputs", "every floating point number",
     "tests use a few short decimals",
     "src/providers/data.rs src/value/parse.rs", [("number parsing of the formats", "external crates")])

prop("C29", "Values hold what they were made from, and accessors are exact",
     "Converting a boolean, character, string, number, empty, array or map into a value yields the value of that kind with that content, element by element and without attribution. Each accessor returns the content unchanged exactly if the value is of its kind and nothing otherwise, and the reported actual kind names the stored one. Two values are equal exactly if they have the same kind and equal content, regardless of their attribution. Serializing into and deserializing from a value pass content and errors through unchanged.",
     "inputs", "every stored kind with arbitrary content and attribution, every accessor and conversion",
     "tests convert a few literals; a mixed-up kind or a dropped element must be excluded for each conversion and content",
     "src/value/value.rs", [("accessors, conversions and equality of values", "src/value/value.rs: Value, Num, Empty")])

prop("C30", "The serde helpers accept and produce exactly what they document",
     "The boolean helper asks for any kind of input and yields: the boolean itself; true and false for those words in any letter case; true for the integer one and false for zero, signed or unsigned; and an error reporting the input for everything else. The tuple map helpers write all pairs in order as the entries of one map, and read all entries of a map, in order and keeping duplicates, or yield the first error.",
     "inputs", "every input of the boolean helper; every sequence of entries, and every position of a failure",
     "tests read a few words and numbers; a wrong case, sign, order or swallowed error must be excluded for all inputs",
     "src/util.rs", [("serde helpers", "src/util.rs: bool_from_str_or_int, vec_tuple_map")])

prop("C31", "Errors, error kinds, metadata and alternatives are equal if all parts are",
     "Two errors are equal exactly if their tag, profile, metadata, path, kind and the errors they follow are all equal. Two metadata are equal exactly if their names and sources are. Two error kinds, two found values of an error, two sources of metadata, and two tagged alternatives are equal exactly if they are the same variant and all parts of it are equal. Comparing them never panics.",
     "inputs", "every pair of errors, kinds, found values, sources and alternatives with arbitrary content",
     "tests compare a few literals of the same shape; a part left out of the comparison must be excluded for every variant",
     "src/error.rs", [("equality of errors", "src/error.rs: Error, Kind, Actual"), ("equality of sources", "src/metadata.rs: Source"), ("equality of alternatives", "src/value/magic.rs: Either")])

NA = {
    "C27": "stack use is bounded only by the nesting depth of run-time data; the code recurses on it by design, and no static bound exists",
    "C28": "the decimal conversions are inside external crates (serde_json, toml_edit, serde_yaml) and the standard library, whose numerics are outside the analysed source",
}
TECH = {"C16": "abstract interpretation over MIR in a domain of texts whose characters are character classes, compared with the documented grammar",
        "C23": "static effect analysis: call-graph reachability of effects, statics and unsafe code; type walk for interior mutability; auto-trait queries; path-counting of provider reads over MIR"}
PENDING = "no check has been completed for this property"


def main():
    import rules
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
            assert len(p["title"]) <= 80, p["id"]
    checks, na = [], []
    for p in P:
        r = rules.RULES.get(p["id"])
        if r is None:
            na.append({"property": p["id"], "reason": NA.get(p["id"], PENDING)})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3 -B check.py {p['id']} --tier quick",
            "thorough_cmd": f"python3 -B check.py {p['id']} --tier thorough",
            "technique": TECH.get(p["id"]) or "static dataflow / abstract interpretation over MIR: gated value-flow summaries compared with a specification",
            "level": "other",
            "level_note": r["how"] + ". Sound for the analysed bodies under: " + "; ".join(r["assumes"]) + ". Anything undecided is reported as a violation.",
        })
    man = {"version": 1,
           "setup_cmd": "python3 -B tools/setup.py",
           "checks": checks, "not_applicable": na,
           "notes": "One facts driver (driver/) dumps the type-checked MIR of /repo's current tree; sa/ analyses it; check.py decides one property. No hooks in /repo."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed,", len(na), "not applicable")


if __name__ == "__main__":
    main()
