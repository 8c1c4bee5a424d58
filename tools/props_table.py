prop("C01", "Tag-value text denotes exactly one sequence of tag/value pairs",
 "Splitting tag-value text yields exactly the pairs it denotes, in order: blank lines and lines starting with # are ignored, a one-line value is everything after the first colon with surrounding whitespace removed, and a value between <text> and </text> is taken verbatim, across lines, whatever it contains. A line without a colon outside a text value, or a text value that is never closed, is an error and never yields a shortened list. Neither the length of a line nor the number of lines changes this.",
 ["inputs"], "every finite tag-value text, as a sequence of lines over tags, colons, spaces, tabs, comments, text delimiters and newlines, of any line length",
 "The lexer tests feed a few dozen hand-written lines; the interaction of open text values, comments, colons, delimiters and blank lines is a product space they sample at a handful of points.",
 ["tagvalue/reader/reader.go"],
 [("line lexer with an open-text mode", "tagvalue/reader/reader.go:readNextLine"), ("end-of-input check", "tagvalue/reader/reader.go:finalize")],
 [("midtext", "a <text> value is open", "tagvalue/reader/reader.go")], ["tagvalue/reader.ReadTagValues"])
prop("C02", "Every tag-value tag lands in the element it follows, and nothing is lost",
 "Reading a tag-value document stores the value of every tag in the field that tag names of the element most recently opened: the document, the current package, the current file, the current snippet, extracted licence, relationship, annotation or review; repeatable tags accumulate in order. Files before the first package are unpackaged files, later files belong to the package they follow, snippets to the file they follow, and relationships and annotations may appear in any section without ending it. No element or value of an accepted document is dropped, duplicated or attached to another element, in versions 2.1, 2.2 and 2.3.",
 ["inputs", "histories"], "every sequence of tags the format accepts, in every order of sections, for each of the three versions",
 "Unit tests parse each tag once from a hand-set parser state; the attribution depends on the whole history of sections and open elements (which package, file, snippet, relationship is current).",
 [V + "/tagvalue/reader/*.go", "tagvalue/reader.go"],
 [("section state machine", V + "/tagvalue/reader/parser.go:parsePair"), ("per-section tag switches", V + "/tagvalue/reader/parse_*.go")],
 [("parser state", "current section and the open package, file, snippet, relationship, annotation, review", V + "/tagvalue/reader/types.go")], ["tagvalue.ReadInto"])
prop("C03", "Malformed tag-value documents are rejected, without a panic",
 "A tag-value document is rejected with an error, never with a panic and never by silently skipping the tag, when a tag is not allowed in the current section, when a package or a file has no identifier, when a dependent tag has nothing to attach to (a relationship comment, annotation detail, external reference comment or project detail with no open owner), or when a structured value (identifier, relationship, checksum, creator, supplier, external reference, snippet range, external document reference) is malformed or uses an algorithm or actor type its version does not define. An input that ends anywhere, including in the middle of an element, gives either an error or the document its complete tags denote.",
 ["inputs", "histories"], "every sequence of tags in every section, with well-formed and malformed values, and every truncation, for each version",
 "Tests check selected error cases from hand-set states; the product of sections, open-element contexts, tags and malformed values is far larger.",
 [V + "/tagvalue/reader/*.go", "tagvalue/reader.go"],
 [("unknown-tag defaults per section", V + "/tagvalue/reader/parse_*.go"), ("identifier checks", V + "/tagvalue/reader/parser.go:ParseTagValues"), ("value extractors", V + "/tagvalue/reader/util.go")],
 None, ["tagvalue.ReadInto"])
prop("C04", "Writing tag-value and reading it back returns the same document",
 "For versions 2.1, 2.2 and 2.3, writing a document as tag-value and reading the text back yields an equal document: every field that tag-value carries, of the document, its packages, files, snippets, extracted licences, relationships, annotations and reviews, with list order and multi-line text intact, and no element moved to another owner. Only the order of external document references, packages and files may change, to the order of their identifiers; for a package whose files were not analysed the verification code and the licences from files are left out.",
 ["inputs"], "every document whose identifiers are unique and whose mandatory values are present, one-line values carrying no newline, surrounding whitespace or text delimiter, each snippet range being a byte range or a line range with positive bounds",
 "The repository writes and reads single hand-made sections in separate tests; no test composes writer and reader over arbitrary combinations of fields and elements.",
 [V + "/tagvalue/writer/*.go", V + "/tagvalue/reader/*.go", "tagvalue/writer.go", "tagvalue/reader.go"],
 [("section renderers", V + "/tagvalue/writer/save_*.go"), ("multi-line wrapping", V + "/tagvalue/writer/util.go:textify"), ("section parser", V + "/tagvalue/reader/*.go")],
 None, ["tagvalue.Write", "tagvalue.ReadInto"])
prop("C05", "Writing a document is deterministic and does not change it",
 "Writing a document as tag-value, JSON or YAML leaves every part of the caller's document exactly as it was, including the order of its lists. Writing the same document again produces the same bytes, and tag-value output does not depend on the order in which packages, files and external document references happen to be listed or snippets to be stored.",
 ["inputs", "histories"], "every document, every sequence of writes in any format, every ordering of the lists that are written by identifier",
 "Tests write a document once, already in sorted order, and compare text; they never look at the document afterwards or permute it.",
 [V + "/tagvalue/writer/save_document.go", V + "/tagvalue/writer/save_package.go", V + "/tagvalue/writer/save_file.go", "json/writer.go", "yaml/writer.go"],
 [("sorting by identifier", V + "/tagvalue/writer/save_document.go:RenderDocument"), ("snippet key sorting", V + "/tagvalue/writer/save_file.go:renderFile")],
 None, ["tagvalue.Write", "json.Write", "yaml.Write"])
prop("C06", "Writing JSON and reading it back returns the same document",
 "For versions 2.1, 2.2 and 2.3, writing a document as JSON, with or without indentation and HTML escaping, and reading the text back yields an equal document: every field JSON carries, at every nesting level, for any Unicode text in it, with absent fields staying absent and lists in order. Each field is stored under the key the SPDX JSON schema gives it, so a document written by another tool under those keys is read into the same fields.",
 ["inputs"], "every valid document of each version over arbitrary text values, every writer option, every subset of optional fields",
 "The tests round-trip one example document per version and compare it with a fixture; escapes, absent-versus-empty cases and combinations outside the example are never exercised.",
 ["json/reader.go", "json/writer.go", "json/marshal/marshal.go", V + "/*.go", "spdx/v2/common/*.go"],
 [("custom JSON codecs", "spdx/v2/common/*.go"), ("struct tags and unmarshal hooks", V + "/{document,package}.go")],
 None, ["json.Write", "json.ReadInto"])
prop("C07", "YAML and JSON carry the same document",
 "For every version, writing a document as YAML and reading it back yields an equal document, and the YAML text denotes the same tree of keys and values as the JSON text of that document. Reading a tree of keys and values from YAML gives the same document, or the same rejection, as reading it from JSON.",
 ["inputs"], "every valid document of each version over arbitrary text values, including text that YAML would otherwise read as another type",
 "The tests load one YAML example; values that look like numbers, booleans, dates, anchors or comments, and multi-line text, are not in it.",
 ["yaml/reader.go", "yaml/writer.go", V + "/*.go", "spdx/v2/common/*.go"],
 [("YAML through JSON codecs", "yaml/writer.go"), ("version dispatch", "yaml/reader.go")], None, ["yaml.Write", "yaml.ReadInto"])
prop("C08", "Legacy describes and has-files lists become relationships exactly once",
 "When a 2.2 or 2.3 JSON or YAML document lists described elements or the files of a package in the deprecated short forms, reading it yields exactly one describes or contains relationship for each listed pair that the relationships do not already express, in either direction. The relationships given explicitly are kept unchanged, in order and before the derived ones, null entries excepted, and reading never invents any other relationship.",
 ["inputs"], "every combination of explicit relationships (both directions, duplicates, comments, nulls, external and special targets), described-element lists and per-package file lists",
 "A few tests load one example with these lists; the deduplication is over pairs, directions and both list kinds at once.",
 ["spdx/v2/v2_2/document.go", "spdx/v2/v2_3/document.go", "spdx/v2/v2_2/package.go", "spdx/v2/v2_3/package.go"],
 [("derived relationships with duplicate suppression", "spdx/v2/v2_3/document.go:UnmarshalJSON"), ("hasFiles capture", "spdx/v2/v2_3/package.go:UnmarshalJSON")], None, ["json.Read", "yaml.Read"])
prop("C09", "Identifiers and actors decode exactly what they encode",
 "For element identifiers, document identifiers, combined references, creators, annotators, suppliers and originators, encoding a valid value as JSON and decoding it returns that value, whatever characters the name contains, and the encoded text carries the required prefix exactly once. Text that is not a valid encoding (missing prefix, empty identifier, missing actor type separator) is rejected rather than decoded to something else, and NONE and NOASSERTION decode to special values only where they are allowed.",
 ["inputs"], "every identifier and actor value, and every near-miss text around them",
 "Each codec has a handful of table rows; escapes, colons inside names, nested prefixes and boundary cases are not covered.",
 ["spdx/v2/common/identifier.go", "spdx/v2/common/package.go", "spdx/v2/common/creation_info.go", "spdx/v2/common/annotation.go"],
 [("prefix handling", "spdx/v2/common/identifier.go"), ("type/name split", "spdx/v2/common/creation_info.go")], None, ["json.Marshal and json.Unmarshal of the exported types"])
prop("C10", "Converting between SPDX versions keeps everything both versions express",
 "Converting a document from one of the versions 2.1, 2.2 and 2.3 to another, directly or step by step, keeps the value of every field that exists in all versions passed through, in every element and in order, sets the version to the target's, invents no content, and leaves the source unchanged. Converting to a newer version and back returns the original document.",
 ["inputs", "histories"], "every document of every version and every path of conversions between the versions",
 "One full document per direction is compared; absent and empty substructures, and round trips, are not.",
 ["convert/chain.go", "convert/struct.go", V + "/document.go"],
 [("conversion chain", "convert/chain.go"), ("version hooks", "spdx/v2/v2_3/document.go:From_v2_2")], None, ["convert.Document"])
prop("C11", "Reading dispatches on the declared version and fills the requested one",
 "Reading tag-value, JSON, YAML or RDF uses the version the input declares, wherever in the input it declares it, and delivers the document in the version of the value the caller passed, equal to reading in the declared version and converting. An undeclared or unsupported version, an input that is not a document, and a destination that is not a pointer to a supported document are errors and never panics, and a failed read does not store anything in the destination.",
 ["inputs", "configurations"], "every format, declared version (supported, unsupported, missing, malformed, of the wrong type) and destination type",
 "Tests read examples into the default version; the grid of formats, declared versions, placements and destinations is not covered.",
 ["tagvalue/reader.go", "json/reader.go", "yaml/reader.go", "rdf/reader.go", "convert/chain.go"],
 [("version switch", "json/reader.go:ReadInto"), ("destination check", "convert/struct.go:IsPtr")], None, ["ReadInto of each format"])
prop("C12", "Files-analysed means the same in every format and version",
 "A package that does not say whether its files were analysed is read as analysed from tag-value (2.1, 2.2 and 2.3) and from 2.2 and 2.3 JSON and YAML, and remembers that nothing was said; a package that says so is read with the stated value and remembers that it was stated. Writing keeps an unanalysed package unanalysed, and whether a package was analysed survives any sequence of writes and reads in tag-value, JSON and YAML and conversions of versions 2.2 and 2.3.",
 ["inputs", "histories"], "every combination of stated/unstated value, format and version, in every position in a document, and every sequence of write, read and convert steps",
 "The default is tested once per format; sequences of steps and several packages with different settings are not.",
 [V + "/package.go", V + "/tagvalue/reader/parse_package.go", V + "/tagvalue/writer/save_package.go"],
 [("default on read", "spdx/v2/v2_3/package.go:UnmarshalJSON"), ("default in tag-value", V + "/tagvalue/reader/parse_creation_info.go")], None, ["Read and Write of tag-value, JSON, YAML"])
prop("C13", "An RDF graph yields each element once, whatever its serialisation order",
 "Reading a 2.2 or 2.3 RDF/XML document yields each package, file, snippet, extracted licence, relationship and annotation its graph reachably describes exactly once, with each property's value in the matching field, however the nodes are ordered or nested in the file and however often and along whichever path an element is reached. Files owned by a package are listed in it and other files as unpackaged. A property or value outside the vocabulary, and an element used as two kinds of element, is an error. Reading terminates without a panic on cyclic graphs.",
 ["inputs"], "every finite RDF document over the SPDX vocabulary, every nesting and order of its nodes, including shared and cyclic references",
 "Tests parse fragments with one node order; sharing, cycles and permutations of a whole graph are not explored.",
 ["spdx/v2/v2_2/rdf/reader/*.go", "spdx/v2/v2_3/rdf/reader/*.go", "rdf/reader.go"],
 [("node colouring", "spdx/v2/v2_3/rdf/reader/parse_package.go"), ("unpackaged file collection", "spdx/v2/v2_3/rdf/reader/parse_file.go:setUnpackagedFiles")], None, ["rdf.ReadInto"])
prop("C14", "RDF licence structures render to the licence expression they mean",
 "A licence described in RDF as a listed or extracted licence, a NONE or NOASSERTION value, a conjunctive or disjunctive set, an or-later operator or an exception is read as a licence expression with the same meaning: the same licences, operators and exceptions, with the nesting preserved. Cyclic or malformed licence structures are rejected without a panic.",
 ["inputs"], "every licence tree of the RDF vocabulary in every licence-valued position of a 2.2 or 2.3 document",
 "Tests check each node kind alone; nesting and operators under operators are not.",
 ["spdx/v2/v2_2/rdf/reader/parse_license.go", "spdx/v2/v2_3/rdf/reader/parse_license.go", "spdx/v2/v2_3/rdf/reader/license_utils.go"],
 [("licence to string", "spdx/v2/v2_3/rdf/reader/license_utils.go:ToLicenseString"), ("cycle detection", "spdx/v2/v2_3/rdf/reader/parse_license.go:getAnyLicenseFromNode")], None, ["rdf.Read"])
prop("C15", "Converting between formats keeps what both formats express",
 "Reading a document in one of tag-value, JSON and YAML, writing it in another and reading that again keeps every field both formats carry, for versions 2.2 and 2.3, through any chain of such conversions. Fields a format does not carry never change or displace a field it does.",
 ["inputs", "histories"], "every document and every chain of formats",
 "The examples convert one document between two formats without comparing the result.",
 [V + "/tagvalue/**", "json/*.go", "yaml/*.go", "tagvalue/*.go"],
 [("writers and readers of the three formats", "tagvalue/writer.go, json/writer.go, yaml/writer.go")], None, ["Read and Write of tag-value, JSON, YAML"])
prop("C16", "Building from a directory lists exactly its files, with true contents",
 "Building a document from a directory yields one package described by the document and listing every regular file below the directory that is not ignored, exactly once, under its path relative to the directory, in a fixed order, with unique identifiers and with SHA1, SHA256 and MD5 values equal to those of the file's contents; symbolic links and directories are not listed. The verification code is the one those files determine, and the result does not depend on how the directory path is spelled. A directory that cannot be read is an error.",
 ["inputs", "configurations"], "every directory tree (nesting, empty directories, links, odd names, empty and large files) and every spelling of its path",
 "Tests build from one fixture directory with three files.",
 ["builder/*.go", "utils/filesystem.go", "utils/verification.go"],
 [("tree walk", "utils/filesystem.go:GetAllFilePaths"), ("hashing", "utils/filesystem.go:GetHashesForFilePath"), ("numbering", "builder/build_package.go")], None, ["builder.Build"])
prop("C17", "Ignore patterns match exactly the paths they document",
 "A path is ignored exactly when one of the patterns matches it: a plain pattern names one file, or with a trailing slash everything under one directory, from the root; a pattern starting with ** matches the file, or everything under the directory, at any depth. Every pattern is considered, no pattern matches part of a directory or file name, and directory building, licence search and direct queries agree.",
 ["inputs"], "every path and every list of patterns over a small alphabet of nested names, including names that are prefixes or suffixes of one another",
 "A dozen hand-written pairs are tested.",
 ["utils/filesystem.go", "idsearcher/idsearcher.go", "builder/build_package.go"],
 [("pattern matching", "utils/filesystem.go:ShouldIgnore")], None, ["utils.ShouldIgnore", "utils.GetAllFilePaths", "builder.Build"])
prop("C18", "The verification code depends only on the included files' SHA1 values",
 "The package verification code is the SHA1 of the concatenation of the SHA1 checksums of all files except the excluded one, in ascending order: it does not depend on the order of the files or on their other checksums, and the excluded file, if named, is recorded. A missing file entry is an error and the file list is not modified.",
 ["inputs"], "every list of files, in every order, with any checksums and any excluded name",
 "Three hand-made lists are tested.",
 ["utils/verification.go"], [("sorted concatenation", "utils/verification.go:GetVerificationCode")], None, ["utils.GetVerificationCode"])
prop("C19", "Licence identifier search reports exactly the tags found in files",
 "Searching a directory reports for each file exactly the distinct licence expressions of its short-form identifier tags, wherever in the file and however long its lines are: the concluded licence joins them with AND, in ascending order, keeping compound expressions in parentheses; the licence information lists their individual licences once each; a file with no tag, or excluded from the search, says NOASSERTION. The package lists exactly the union over its searched files. A tag in running text rather than in a comment lead-in is not a tag.",
 ["inputs", "configurations"], "every set of files, placement of tags, comment style, line length and exclusion list",
 "Tests search one fixture tree.",
 ["idsearcher/idsearcher.go"], [("line scan", "idsearcher/idsearcher.go:searchFileIDs"), ("assembly", "idsearcher/idsearcher.go:BuildIDsDocument")], None, ["idsearcher.BuildIDsDocument"])
prop("C20", "A licence diff puts every file in exactly one class, with its licences",
 "Comparing two packages puts every file name that occurs in either of them in exactly one class: changed, same, only in the first, or only in the second, with the concluded licence each package gives it; no other name appears. Swapping the packages swaps the classes and the licences, comparing a package with itself reports only unchanged files, and the packages are not modified.",
 ["inputs"], "every pair of packages with distinct file names per package and non-empty concluded licences, in any order of files",
 "Two hand-made packages are compared.",
 ["licensediff/licensediff.go"], [("pairing", "licensediff/licensediff.go:MakePairs"), ("classification", "licensediff/licensediff.go:MakeResults")], None, ["licensediff.MakePairs", "licensediff.MakeResults"])
prop("C21", "A licence report counts every file once and is reproducible",
 "The report of a package counts every file exactly once: as found under its concluded licence, or as not found when that is empty or NOASSERTION; it lists every concluded licence once with its count, in descending order of count, and its totals are the sums of what it lists. Generating the report again gives the same text, the package is not modified, and a package whose files were not analysed is refused.",
 ["inputs", "histories"], "every package, with any multiset of concluded licences including ties, and any number of repetitions",
 "One fixture without ties is compared.",
 ["reporter/reporter.go"], [("counting", "reporter/reporter.go:countLicenses"), ("ordering", "reporter/reporter.go:Generate")], None, ["reporter.Generate"])
prop("C22", "Described packages and relationship validity are reported exactly",
 "For a document with one package its identifier is the described one; with several, the described identifiers are exactly those the document describes, or that say they are described by it, in ascending order, and having none is an error. Filtering relationships returns exactly the selected identifiers in order. Validation accepts a document exactly when both ends of every relationship are the document itself, one of its packages or one of its unpackaged files.",
 ["inputs"], "every document over small sets of packages, files and relationships in both directions and with other types and endpoints",
 "A few hand-made documents are checked.",
 ["spdxlib/*.go"], [("described lookup", "spdxlib/described_elements.go"), ("validation", "spdxlib/documents.go")], None, ["spdxlib.GetDescribedPackageIDs", "spdxlib.ValidateDocument", "spdxlib.FilterRelationships"])
prop("C23", "An I/O failure while reading or writing is always reported",
 "If the destination fails or accepts only part of the data at any point while a document is written as tag-value, JSON or YAML, or a report is generated, the call returns an error; if the source fails at any point while a document is read in any format, the call returns an error. Nothing is reported as success that was not completely transferred, and a source that delivers its data in arbitrarily small pieces gives the same result as one that delivers it at once.",
 ["fault_sequences", "inputs"], "every position of the first failure, short write or short read, for every format and document",
 "No test injects an I/O failure.",
 [V + "/tagvalue/writer/*.go", "tagvalue/*.go", "json/*.go", "yaml/*.go", "rdf/reader.go", "reporter/reporter.go"],
 [("error propagation", "tagvalue/writer.go, json/writer.go, yaml/writer.go, reporter/reporter.go")], None, ["Write and Read of every format", "reporter.Generate"])
prop("C24", "A document may be used by several goroutines that only read and write it out",
 "Any number of goroutines may at the same time write one shared document in any mix of tag-value, JSON and YAML, convert it to another version, or report on, compare or validate its packages: each call returns what it returns alone, the shared document is unchanged, and there is no data race. Reads of independent inputs at the same time give the results they give one after the other.",
 ["schedules"], "every interleaving of any number of such calls on one shared document",
 "All tests are sequential.",
 [V + "/tagvalue/writer/*.go", "json/writer.go", "yaml/writer.go", "convert/chain.go", "reporter/reporter.go", "licensediff/licensediff.go", "spdxlib/*.go"],
 [("writers work on the caller's document", V + "/tagvalue/writer/save_document.go")], None, ["Write of every format", "convert.Document", "reporter.Generate"])
prop("C25", "JSON and YAML that is not a document of its version is rejected",
 "Reading JSON or YAML returns an error, stores nothing and never panics when the text is cut short anywhere, when JSON text is preceded or followed by anything but white space, when any value at any depth has another type than its field (a number, boolean, list or object for text; text, a fraction or an out-of-range number for a count; anything but a list or an object where one belongs), and when any identifier, reference, creator, annotator, supplier or originator in it is malformed. A field that is missing, or null where it is text, a count, a list, an object, a supplier or an originator, is read as absent and changes nothing else; keys that the version does not define are ignored, whatever their values. A tree is treated alike in JSON and in YAML.",
 ["inputs"], "every document of each version with any values replaced, nulled, removed or added at any depth, and every prefix of its text",
 "The tests read well-formed examples and a few bad identifiers in isolation; the product of fields, depths, versions, formats and wrong values is far larger.",
 ["json/reader.go", "yaml/reader.go", V + "/*.go", "spdx/v2/common/*.go"],
 [("strict decoding into typed fields", "json/reader.go:ReadInto"), ("custom decoders", "spdx/v2/common/{identifier,creation_info,annotation,package}.go"), ("two-pass decoding", V + "/{document,package}.go:UnmarshalJSON")],
 None, ["json.ReadInto", "yaml.ReadInto"])
prop("C26", "A document made from a directory stays whole through every tool of the library",
 "A document built from a directory for a package of any one-line name, with or without a search for licences, is one that every part of the library accepts: its identifiers are legal and refer to its elements, its namespace is the prefix followed by the name and the verification code, it names the library and the configured creator, of the configured type or a person if that is no type of creator, and the time of building in UTC, it validates and describes its one package; and through any sequence of writing and reading in tag-value, JSON and YAML and of conversions between the versions it keeps every file with its checksums and licences and all else it was made with. At any point its report counts its files, and its difference from a document made from another state of the directory says which files came, went, stayed and changed.",
 ["inputs", "histories"], "every directory, package name and sequence of write, read and convert steps",
 "Tests exercise the builder, the formats, the conversions, the report and the difference apart from each other, each on its own fixtures.",
 ["builder/*.go", "idsearcher/idsearcher.go", "tagvalue/*.go", "json/*.go", "yaml/*.go", "convert/*.go", "spdxlib/*.go", "reporter/reporter.go", "licensediff/licensediff.go"],
 [("identifiers of built elements", "builder/build_package.go, builder/build_relationship.go"), ("what formats and versions carry", V + "/*.go")], None,
 ["builder.Build, idsearcher.BuildIDsDocument, Write and ReadInto of each format, convert.Document, spdxlib, reporter, licensediff"])
prop("C27", "The exported names stand for the terms of the SPDX specification",
 "Every name the library exports for a relationship type, a checksum algorithm, an external reference category or type, a version or its data licence has exactly the value that the SPDX specification gives that term, under each of its names; names of different terms have different values. A document made with any of these names, in any combination, is written in tag-value, JSON and YAML with the term, and text with the term is read as the value of the name, in every version that has the term; only the names for describing and being described make the library treat a package as described.",
 ["inputs", "configurations"], "every exported name of a term, alone and in any combination in one document, in every version and format",
 "Nearly all of the names occur in no test, and those that do are compared with themselves.",
 ["spdx/model.go", "spdx/v2/common/external.go", "spdx/v2/common/checksum.go", V + "/document.go", V + "/tagvalue/reader/parse_{package,file}.go"],
 [("names of terms", "spdx/v2/common/external.go, spdx/v2/common/checksum.go"), ("second names", "spdx/model.go"), ("algorithms a reader accepts", V + "/tagvalue/reader/parse_package.go")], None,
 ["constants of package spdx and common; Write and ReadInto of each format"])
prop("C28", "What is not a document is refused whole when written or converted",
 "Whatever value is offered for writing as tag-value or for conversion: a document of a supported version, given itself or through any number of pointers, is written in its own version, or converted into the version of the destination, replacing what the destination held; any other value, whatever it is and whatever text it holds, and any destination that is not a pointer to a document, is refused with an error. A refusal never panics, writes nothing, and leaves the destination as it was. (A nil document and a value of the destination's own type are not specified.)",
 ["inputs", "configurations"], "every kind of value, text and destination",
 "Tests offer one struct, an empty one, and no destination that is not a document.",
 ["tagvalue/writer.go", "convert/chain.go", "convert/struct.go"],
 [("dispatch of the writer", "tagvalue/writer.go:Write"), ("description of what is refused", "convert/struct.go:Describe"), ("destination check", "convert/chain.go:Document")], None,
 ["tagvalue.Write and convert.Document"])
