#!/usr/bin/env python3
"""Writes properties.jsonl (one object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

GOLD = "The existing tests compare a handful of fixed sets or files to golden outputs (most of which are not even present in the repository)"

p("C01", "An object file carries exactly the resources of the set",
  "For every resource set and each supported architecture, decoding the object file written by WriteObject, with its relocations applied at any section address, yields exactly the set's resources: the same types, names or IDs, languages and bytes, none missing, extra, duplicated or altered. A set that the format cannot hold (more than 65535 resources in an object, more than 65535 named or 65535 numbered entries in one directory, or more than 32-bit offsets can reach) gets an error, never a wrong object.",
  ["inputs", "configurations"], "all resource sets (any mix of named and numbered types, resources, languages, data sizes from empty to large) x 4 architectures x load addresses",
  GOLD + "; no test decodes an object independently or reaches boundary sizes and counts.",
  ["rsrc.go", "coff.go", "winres.go"],
  [("prepare/write* compute offsets in several separate passes that must agree", "rsrc.go"), ("writeObject sizes the section before writing it", "coff.go")],
  ["bytes written by ResourceSet.WriteObject"],
  [("state.offset", "running offset shared by all writing passes", "rsrc.go")])

p("C02", "Object files are well-formed COFF objects that linkers accept",
  "Every object file written is a COFF object for the requested machine whose sizes, offsets and counts agree with each other and with the file length, holding one .rsrc section and exactly one image-relative relocation, of the type that machine defines and against the .rsrc section symbol, for each data entry and for nothing else. Independent COFF readers parse it, and a real link of it into a Windows executable yields that executable with the same resources.",
  ["inputs", "configurations"], "all resource sets x 4 architectures",
  "Tests check write errors and golden bytes of a few sets; no test links an object or parses its headers, relocations and symbol for arbitrary contents.",
  ["coff.go", "rsrc.go"], [("writeObject, writeRelocTable, writeSymbol", "coff.go"), ("relocAddr collected while writing language directories", "rsrc.go")],
  ["bytes written by ResourceSet.WriteObject", "executables linked with the Go toolchain and lld-link"])

p("C03", "Resource directories are canonical and searchable by Windows",
  "Every resource directory written, to an object or to an executable, lists names before IDs, each in strictly ascending order (names by UTF-16 code unit), so that a binary search as Windows performs it finds every resource. All tables, strings and data lie inside the section without overlapping, resource data is aligned on at least 4 bytes, strings carry their exact length, and every offset leads to a structure of the expected level.",
  ["inputs"], "all resource sets, including names outside the basic multilingual plane, mixed case, extreme IDs and languages",
  "The few sorted examples of the tests have a handful of ASCII names; ordering and layout must hold for all identifiers and sizes.",
  ["rsrc.go", "id.go"], [("lessThan ordering of identifiers", "id.go"), ("order/prepare and name table", "rsrc.go"), ("alignData", "rsrc.go")],
  ["directory bytes in objects and patched executables"])

p("C04", "Output is a pure function of contents, not of history",
  "Two resource sets that hold the same resources produce byte-identical object files for each architecture, byte-identical patched executables for the same source and options, and the same walk order, whatever sequence of additions, replacements, deletions, walks, lookups and earlier writes led to them. Writing twice gives the same bytes twice.",
  ["histories", "inputs"], "all operation histories reaching the same contents, all insertion orders, all map iteration orders",
  "Tests build each set once, in one order, and write it once; ordering caches and map iteration only matter across longer histories.",
  ["rsrc.go", "winres.go"], [("cached orderedKeys invalidated by set/delete", "winres.go"), ("order() sorts map keys", "rsrc.go")],
  ["bytes from WriteObject and WriteToEXE", "Walk callbacks"],
  [("orderedKeys", "cached key order per type and per resource", "rsrc.go")])

p("C05", "A resource set behaves as a map keyed by type, name and language",
  "After any history of operations, a lookup returns exactly the bytes last set for that type, name and language, nil after deletion or when never set; Count, Walk and WalkType report exactly the live resources, once each, names before IDs in ascending order, and a walk stops as soon as its callback returns false. Invalid identifiers (zero ID, empty name, name with NUL, name that UTF-16 cannot hold exactly or that is longer than 65535 units) are refused and leave the set unchanged. The named types, languages and architectures have the values that Windows and Go define.",
  ["histories"], "all sequences of Set, delete, Get, Walk, WalkType, Count, WriteObject, WriteToEXE, SetManifest, SetVersionInfo, SetIcon, SetCursor",
  "Tests run two short fixed histories; stale ordering caches appear only when writes or walks are interleaved with later modifications.",
  ["winres.go", "rsrc.go", "id.go"], [("set/delete maintain nested maps and caches", "winres.go"), ("checkIdentifier", "id.go")],
  ["ResourceSet.Get, Count, Walk, WalkType results"],
  [("types", "nested maps of resources", "winres.go")])

p("C06", "Resources written to an executable read back exactly",
  "For every well-formed unsigned PE32 or PE32+ image that has room for a section header, or whose resource section needs none because it holds nothing but resources and closes the image (alone or followed only by relocations), and every resource set it has address space for, WriteToEXE succeeds and its output, read by LoadFromEXE or by an independent reader, contains exactly that set, whatever resources and section layout the image had. This holds again after any sequence of further patches that grow, shrink or empty the resources.",
  ["inputs", "histories"], "all well-formed images (bitness, alignments, number of directories, position of the resource section, presence of relocations, uninitialized or empty sections, appended data) x resource sets x patch sequences",
  GOLD + " of seven executables; all of those tests fail here for lack of data.",
  ["exe.go", "winres.go", "rsrc.go"], [("replaceRSRCSection, preparePEWriter, requiresNewSection, updateHeaders, applyReloc, writeEXE", "exe.go"), ("extractRSRCSection", "exe.go"), ("ResourceSet.read", "rsrc.go")],
  ["bytes written by WriteToEXE", "LoadFromEXE results"])

p("C07", "Patching preserves everything else in the executable",
  "WriteToEXE keeps every other section's name, flags, sizes and bytes, the DOS stub, the entry point and all other header fields, the data stored between the headers and the first section, and all data appended after the last section, byte for byte. Every other section stays at its virtual address, except a relocation section that directly follows the resource section and closes the image, which may move together with its data directory; every other data directory, one that designates something inside the old resource section included, and the COFF symbol table pointer still designate the same bytes as before (a bound import table whose place a new section header takes is dropped instead).",
  ["inputs", "histories"], "all well-formed images x resource sets x patch sequences",
  "Golden files cover a few layouts only; what must be preserved depends on where sections, overlay, symbols and empty sections lie.",
  ["exe.go"], [("updateHeaders shifts pointers and directories", "exe.go"), ("writeEXE copies ranges of the source", "exe.go"), ("fillSectionsInfo computes the ranges", "exe.go")],
  ["bytes written by WriteToEXE compared to the source image"])

p("C08", "Patched executables stay structurally valid and loadable",
  "In every patched executable the headers fit before the first section's data and inside the declared header size, section data ranges are aligned, inside the file and disjoint, virtual ranges are aligned, ascending, disjoint and gapless if they were so in the source, and the image size covers exactly all sections. The section count and size totals account for the change, and the resource directory entry designates exactly one readable section that holds the whole resource tree and nothing beyond its size is referenced. A resource section that closes the image, or is followed only by relocations, is replaced rather than abandoned, unless another data directory designates something inside it; a section that is added comes last and is named .rsrc; a lookup by that name finds the section which holds the resources if it did so before. Resources for which there is no address space left get an error.",
  ["inputs", "histories"], "all well-formed images x resource sets x patch sequences",
  "No test validates the patched headers; only golden comparison on a few files.",
  ["exe.go"], [("updateHeaders", "exe.go"), ("roundRaw/roundVirt", "exe.go")],
  ["headers and section table of WriteToEXE output, read by an independent parser and by debug/pe"])

p("C09", "The PE checksum of a patched executable is right",
  "When the source image had a non-zero checksum, or the checksum is forced, the checksum field of the output equals the PE checksum of the output file computed with that field taken as zero; otherwise the field is zero. This holds for any file length, odd lengths included, and whatever way the source is read.",
  ["inputs", "configurations"], "all images, lengths (odd and even), source reader kinds, options",
  "The checksum test feeds one fixed byte sequence to the accumulator; whole-file agreement depends on how writes are split and on their parity.",
  ["pesum.go", "exe.go"], [("peCheckSum.Write/Sum handle split and odd writes", "pesum.go"), ("two-pass writing", "exe.go")],
  ["checksum field in WriteToEXE output"])

p("C10", "Signed executables are refused, stripped or kept as asked",
  "IsSignedEXE reports whether the image has a certificate table and leaves the reader's position as it was; without option, WriteToEXE refuses exactly the images so reported, with ErrSignedPE, and writes nothing. With RemoveSignature the output has no certificate entry, and a certificate table that ended the file is gone while all other appended data is kept; with IgnoreSignature the certificate entry designates, inside the output, the same certificate bytes as in the source.",
  ["inputs", "configurations"], "all well-formed signed and unsigned images, positions of the certificate table, handling options",
  GOLD + "; a single signed file, absent here, is used.",
  ["exe.go", "winres.go"], [("preparePEWriter signature handling, updateHeaders certificate offset", "exe.go"), ("IsSignedEXE", "winres.go")],
  ["IsSignedEXE result and reader position", "error and output of WriteToEXE"])

p("C11", "No executable, however malformed, makes the library crash",
  "For every byte sequence given as an executable, LoadFromEXE, LoadFromEXESingleType, IsSignedEXE and WriteToEXE return a result or an error; they never panic or loop forever, and never need memory out of proportion with the input. When WriteToEXE rejects the headers it writes nothing. All four return an error for what is not a PE image: without the MZ or PE signature, or with an optional header that is neither of PE32 nor of PE32+.",
  ["inputs"], "all byte sequences; mutations of all header, section and resource directory fields of valid images",
  "Tests corrupt about twenty fixed fields; crashes hide in other fields and combinations.",
  ["exe.go", "rsrc.go", "winres.go", "reader.go"], [("bounds checks in readPEHeaders, extractRSRCSection, preparePEWriter", "exe.go"), ("bounds checks in readDirTable, readData, readName", "rsrc.go")],
  ["return values and panics of the four functions"])

p("C12", "Any well-formed resource section is loaded exactly",
  "LoadFromEXE returns exactly the resources of any well-formed three-level resource section, however its tables, strings and data are laid out, ordered, padded or shared, and whatever the unused fields contain. LoadFromEXESingleType returns exactly the subset of that having the requested type, plus the images that icon or cursor groups need when those group types are requested; an executable without resources yields ErrNoResources and an empty usable set.",
  ["inputs"], "all well-formed resource sections, all requested types",
  "The tests read one real section (absent here); layouts from other tools differ in order, sharing and padding.",
  ["rsrc.go", "exe.go", "winres.go"], [("ResourceSet.read, dirEntry.walk, readDirTable, readName, readData", "rsrc.go"), ("extractRSRCSection", "exe.go")],
  ["contents of the loaded sets"])

p("C13", "No icon or cursor input makes the library crash",
  "For every byte sequence given to LoadICO or LoadCUR, and for any bytes stored as icon or cursor groups and images in a resource set, loading, extracting, storing and saving return a result or an error and never panic. Image lists and sizes that make no icon or cursor (empty or oversized images, negative or oversized sizes) get an error.",
  ["inputs"], "all byte sequences as ICO, CUR, RT_GROUP_ICON, RT_GROUP_CURSOR, RT_ICON and RT_CURSOR data; all image dimensions and sizes",
  "Tests truncate a few headers; short DIBs, short cursor resources and extreme sizes are not reached.",
  ["icon.go", "cursor.go"], [("length checks in LoadICO, GetIconTranslation, addImage", "icon.go"), ("readDIBBitCount, GetCursorTranslation", "cursor.go")],
  ["return values and panics"])

p("C14", "No version or manifest input makes the library crash",
  "For every input given to version.FromBytes, to the JSON decoders of version information and application manifests, and to AppManifestFromXML, the call returns a value or an error and never panics. Every value so obtained can be used with all the other operations (encoding to binary, JSON or XML, splitting, merging, setting versions, embedding in a set) without a panic, and never contains a key or value that the setter would refuse.",
  ["inputs"], "all byte sequences; mutations of valid binary, JSON and XML documents, followed by any operation on the result",
  "Tests use a dozen fixed malformed inputs and never use a decoded value any further.",
  ["version/binary.go", "version/json.go", "version/version.go", "manifest.go"], [("readNode, readString, readStringWithLength bounds", "version/binary.go"), ("UnmarshalJSON", "version/json.go"), ("AppManifestFromXML, Unmarshal*", "manifest.go")],
  ["return values and panics"])

p("C15", "I/O failures are always reported",
  "If any read, seek or write on a stream given by the caller fails or ends early, once or for good, at any point of loading, saving or patching, the operation returns an error, or a result identical to that of a run without failure. It never reports success with a truncated or different output.",
  ["fault_sequences", "inputs"], "every single I/O operation of every streaming function failing (transiently or permanently), for varied inputs",
  "Tests inject about forty failures at fixed offsets, mostly with absent data, and never check outputs that claim success.",
  ["exe.go", "rsrc.go", "coff.go", "icon.go", "cursor.go", "reader.go", "winres.go"], [("error propagation in writeEXE, write*, readFull, binaryRead", "exe.go")],
  ["errors and outputs of LoadFromEXE, LoadFromEXESingleType, IsSignedEXE, WriteToEXE, WriteObject, LoadICO, LoadCUR, SaveICO, SaveCUR"])

p("C16", "The kind of stream does not change what is read or written",
  "The result of loading or patching an executable, and the bytes written by every writing function, depend only on the contents of the source and of the set, not on whether streams are files, buffers, pipes or custom implementations, can seek, report their size, deliver data in small pieces or with a final EOF, were left at another position, or held older data.",
  ["configurations", "inputs"], "all combinations of source and destination stream kinds",
  "Tests use bytes.Buffer and os.File and one custom writer, with golden files that are absent here.",
  ["exe.go", "winres.go"], [("getSeekerSize", "exe.go"), ("writeBlank", "exe.go"), ("initial Seek to the start", "exe.go")],
  ["bytes received by each destination kind", "loaded sets"])

p("C17", "Icons survive every conversion unchanged",
  "Every image of an ICO file loaded with LoadICO keeps its directory attributes and its exact bytes through SetIcon, embedding in an object or executable, extraction with GetIcon and SaveICO, and saved files are valid ICO files listing every image exactly once. Files and stored groups list images by decreasing colour depth, then decreasing width, then in the order they were given. The stored group directory refers to existing image resources, with their right sizes. Files with another type, files cut before the end of an image, and icons of more than 65535 images are refused.",
  ["inputs", "histories"], "all ICO files (any number, order, sharing and placement of images), languages, names",
  GOLD + "; the icon tests fail here for lack of data.",
  ["icon.go", "winres.go"], [("LoadICO, SaveICO, SetIconTranslation, GetIconTranslation, order", "icon.go")],
  ["bytes of saved ICO files and RT_GROUP_ICON/RT_ICON resources"])

p("C18", "Cursors survive every conversion unchanged",
  "Every image of a CUR file loaded with LoadCUR keeps its dimensions, hot spot and exact bytes through SetCursor, embedding in an object or executable, extraction with GetCursor and SaveCUR, and saved files are valid CUR files listing every image exactly once. Files and stored groups list images by decreasing colour depth, then decreasing width, then in the order they were given. Cursor resources carry the hot spot before the image, and the group directory refers to them with their right sizes and the planes and depth found in the image. Files with another type, files cut before the end of an image, images that are neither PNG nor DIB, and cursors of more than 65535 images are refused.",
  ["inputs", "histories"], "all CUR files (DIB header kinds, PNG, any hot spot and placement), languages, names",
  GOLD + "; the cursor tests fail here for lack of data.",
  ["cursor.go", "winres.go"], [("LoadCUR, SaveCUR, SetCursorTranslation, GetCursorTranslation, readDIBBitCount", "cursor.go")],
  ["bytes of saved CUR files and RT_GROUP_CURSOR/RT_CURSOR resources"])

p("C19", "Icons made from images show exactly those images",
  "Each image given to NewIconFromImages (any colour model, any origin, up to 256 by 256) becomes one 32-bit PNG entry, square on its larger side, in which the image is centred with its exact colours and transparency over a fully transparent background. The directory attributes agree with the encoded image, and bigger or empty images are refused.",
  ["inputs"], "all images up to 256x256, all colour models and bounds",
  "Golden comparison on five images that are absent here; other models, origins, parities and the 256 limit are not covered.",
  ["icon.go"], [("addImage, imageInSquareNRGBA", "icon.go")],
  ["decoded PNG entries of SaveICO output"])

p("C20", "Cursors made from images show exactly those images",
  "Each image given to NewCursorFromImages (any colour model, any origin, up to 256 by 256) becomes one 32-bit bottom-up DIB with doubled header height, square on its larger side, holding the image at the top left with its exact colours and transparency, other pixels being transparent. The hot spot and dimensions are kept, the stored group gives the size of each resource, and bigger or empty images are refused.",
  ["inputs"], "all images up to 256x256, all colour models (opaque included), bounds and hot spots",
  "Golden comparison on a few translucent images that are absent here.",
  ["cursor.go", "icon.go"], [("addImage", "cursor.go"), ("imageInSquareNRGBA", "icon.go")],
  ["DIB entries of SaveCUR output and RT_CURSOR resources"])

p("C21", "Icon and cursor groups never disturb each other",
  "However icons and cursors are added, replaced, translated, deleted, loaded from executables or mixed with manually numbered image resources, adding one never overwrites an existing image resource, and each group still present gives back exactly the images it was made of. When image IDs are exhausted the call fails, and earlier groups still give back their images.",
  ["histories"], "all sequences of icon, cursor and raw resource operations, including after loading and near ID exhaustion",
  "Tests add at most a few icons to a fresh set.",
  ["icon.go", "cursor.go", "winres.go"], [("lastIconID/lastCursorID allocation", "winres.go"), ("SetIconTranslation", "icon.go"), ("SetCursorTranslation", "cursor.go")],
  ["GetIcon/GetCursor results after each step", "RT_ICON/RT_CURSOR resources"],
  [("lastIconID", "highest image ID used so far", "winres.go")])

p("C22", "Version information is encoded faithfully to VS_VERSIONINFO",
  "For every version information whose encoding fits the format's 64 KB, the binary form is a valid VS_VERSIONINFO block (consistent lengths, alignment, types and terminators, one string table per language, matching translation list) from which an independent reader recovers all versions, flags, type, timestamp (to 100 ns) and strings; a timestamp outside of what the format can hold is left out. version.FromBytes gives back the same information, and encoding is deterministic. The named keys and languages are those Windows looks for.",
  ["inputs"], "all version structures: any languages, keys, values, Unicode, flags, types and timestamps",
  "Tests compare about five fixed structures with golden files.",
  ["version/binary.go", "version/timestamp.go", "version/version.go"], [("nodeBytes, stringBytes, writeAligned", "version/binary.go"), ("timeToTimestamp/timestampToTime", "version/timestamp.go")],
  ["bytes from Info.Bytes", "FromBytes results"])

p("C23", "Version information from other tools is read exactly",
  "version.FromBytes recovers exactly the fixed information and every key and value of any well-formed Unicode VS_VERSIONINFO block, whatever its padding, order of children, case of the language key, trailing bytes, empty values (with or without terminator), absent terminators, repeated terminators, unknown blocks or absent parts. Blocks it does not support give an error, not partial data.",
  ["inputs"], "all well-formed Unicode VS_VERSIONINFO layouts",
  "Tests read back mostly what the package itself wrote.",
  ["version/binary.go"], [("readNode, readChildren, readString, readStringWithLength, readFixedStruct", "version/binary.go")],
  ["FromBytes results"])

p("C24", "Version information survives JSON",
  "Encoding version information to JSON and decoding it gives back the same versions, flags, type, timestamp, languages, keys and values. Decoding replaces everything the target held before, and accepts any language number, order of flags and letter case.",
  ["inputs"], "all version structures and JSON spellings of them",
  "Tests use one or two fixed documents.",
  ["version/json.go"], [("MarshalJSON/UnmarshalJSON", "version/json.go")],
  ["JSON documents and decoded structures"])

p("C25", "Version translations are split, merged and selected as documented",
  "Splitting gives each language its own strings, completed for every key used anywhere by the neutral value, else the en-US one, else that of the lowest language having it, with the same fixed part; merging and main translation selection follow the documented priorities. Setting the file or product version updates the number and that string in every language, and SetVersionInfo stores one such complete block per language, never losing the fixed part.",
  ["inputs"], "all version structures, language sets and version strings",
  "Tests use one fixed example per function.",
  ["version/version.go", "winres.go"], [("splitLangs, MergeTranslations, GetMainTranslation, versionStringToArray, SetFileVersion, SetProductVersion", "version/version.go"), ("SetVersionInfo", "winres.go")],
  ["SplitTranslations, MergeTranslations, GetMainTranslation results", "RT_VERSION resources"])

p("C26", "Manifests are well-formed XML that says what was asked",
  "For every application manifest description, whatever its texts contain, the manifest stored (as resource 1 of its type, in en-US) is well-formed XML in which every setting appears exactly when asked, in its Microsoft namespace, with its documented value, and the supported systems are exactly those from the minimum upwards. AppManifestFromXML gives back the same description, except characters XML cannot represent and the version of an unnamed assembly.",
  ["inputs"], "all combinations of settings and texts (markup characters, control characters, line breaks, any Unicode)",
  "Tests check five fixed descriptions.",
  ["manifest.go", "winres.go"], [("manifestTemplate, makeManifest", "manifest.go"), ("AppManifestFromXML", "manifest.go")],
  ["RT_MANIFEST resource bytes", "AppManifestFromXML results"])

p("C27", "Manifests survive JSON",
  "Encoding an application manifest description to JSON and decoding it gives back the same description (the version of an unnamed assembly excepted), every documented spelling of an option is accepted regardless of case and surrounding space, and anything else is an error.",
  ["inputs"], "all descriptions and spellings",
  "Tests cover some fixed values only.",
  ["manifest.go"], [("MarshalText/UnmarshalText, MarshalJSON/UnmarshalJSON", "manifest.go")],
  ["JSON documents and decoded structures"])

p("C28", "Manifests from other tools are understood",
  "AppManifestFromXML recovers every known setting from any well-formed UTF-8 manifest, whatever its namespace prefixes, element and attribute order, letter case and spacing of values, comments, unknown elements or repeated blocks, and ignores everything else; absent settings get their documented meaning. A document with an XML syntax error is refused, a well-formed one never is.",
  ["inputs"], "all well-formed manifests expressing given settings",
  "Tests parse ten fixed documents.",
  ["manifest.go"], [("AppManifestFromXML, readDPIAwareness, manifestBool, osIDToEnum", "manifest.go")],
  ["AppManifestFromXML results"])

p("C29", "Independent work can run concurrently",
  "Goroutines that each use their own resource sets, icons, cursors, version structures and streams, sharing only read-only inputs (images, byte slices, manifests), never race and obtain exactly the results of a sequential run.",
  ["schedules", "inputs"], "all interleavings of operations on distinct objects",
  "The tests are purely sequential and run without the race detector.",
  ["winres.go", "rsrc.go", "icon.go", "cursor.go", "manifest.go", "version/version.go"], [("no shared mutable package state", "icon.go"), ("per-call buffers", "rsrc.go")],
  ["race detector reports", "outputs compared to a sequential run"])

p("C30", "Inputs and stored data are never modified",
  "No operation modifies the byte slices, images, version structures, tables or sources it is given or the resource data a set already holds, and reading operations (writing out, walking, looking up, extracting, saving, splitting, merging, copying tables) leave their object observably unchanged. Tables returned as copies are independent of the original.",
  ["inputs", "histories"], "all operations on all inputs, checked before and after",
  "Tests never look at their inputs after a call.",
  ["winres.go", "rsrc.go", "exe.go", "icon.go", "cursor.go", "version/version.go"], [("applyReloc works on a private buffer", "exe.go"), ("Table deep copy", "version/version.go"), ("resData copies", "cursor.go")],
  ["digests of inputs and of stored resources around each call"])

p("C31", "Resized icons have the requested sizes and the same picture",
  "NewIconFromResizedImage gives one square image for each requested size, of exactly that size, or by default 256, 64, 48, 32 and 16, showing the whole source picture scaled without distortion or displacement and centred over a transparent background. Sizes outside 1 to 256 that it cannot honour, and more than 30 sizes, are refused.",
  ["inputs"], "all images, aspect ratios and size lists",
  "Golden comparison on three images that are absent here.",
  ["icon.go"], [("resizeImage, imageInSquareNRGBA", "icon.go")],
  ["decoded PNG entries of SaveICO output"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
