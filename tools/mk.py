#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
CLI = "crates/pica-cli/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), note=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

p("C01", "Record codec: exact grammar and lossless round trip",
  "A byte string decodes as a record exactly when it is one or more fields followed by a single final newline, a field being a valid tag ([012][0-9][0-9][A-Z@]), an optional '/' with a two- or three-digit occurrence, a space, zero or more subfields (0x1F, one ASCII letter or digit, a value without 0x1E and 0x1F) and 0x1E; everything else is rejected, and nothing panics. "
  "The decoded record holds precisely those tags, occurrences, codes and values in input order. "
  "Serialising it, borrowed or owned, gives back the input bytes, and a record assembled from one or more valid fields decodes from its serialisation to an equal record.",
  ["inputs"], "all byte strings and all well-formed record values",
  "the tests decode a few hand-written lines and random values; they do not compare accepted and rejected byte strings with the grammar for all inputs",
  ["src/primitives/parse.rs", "src/primitives/record.rs", "src/primitives/field.rs", "src/primitives/subfield.rs", "src/primitives/tag.rs", "src/primitives/occurrence.rs"],
  [("field and record parser", "src/primitives/parse.rs"), ("write_to of record, field and subfield", "src/primitives/*.rs"), ("validating constructors of tag, occurrence, code and value", "src/primitives/*.rs")],
  observe=["RecordRef::from_bytes", "RecordRef::write_to", "Record/RecordRef conversions"])

p("C02", "A byte record always writes, hashes and compares what it holds",
  "A record read from bytes writes exactly those bytes until it is changed; after any sequence of removals, keep/discard calls or mutable accesses it writes exactly the serialisation of the fields it then holds. "
  "Its SHA-256 digest is the digest of the bytes it would write; two records are equal exactly when they would write the same bytes, and equal records hash equally, whatever mix of read, converted and modified records is compared. "
  "Converting to a UTF-8 checked record succeeds exactly when every subfield value is valid UTF-8.",
  ["inputs", "histories"], "all records and all sequences of operations on them",
  "the record caches its raw input beside its parsed fields; tests check a few single operations, not every history that could let the two views drift apart",
  ["src/record.rs", "src/primitives/record.rs"],
  [("raw data dropped on every mutable access", "src/record.rs"), ("write_to, eq, hash and sha256 over both views", "src/record.rs")],
  state=[("raw_data", "the bytes the record was read from, or nothing once it may differ", "src/record.rs")],
  observe=["ByteRecord::write_to", "ByteRecord::sha256", "==", "Hash", "StringRecord::try_from"])

p("C03", "Reader: every line once, in order, with its line number; skip only bad lines",
  "Reading a source yields one item per line (separated by newline bytes, including a last line without newline), in order, independent of how the underlying reads are chunked: the decoded record of that line, or an error that names the 1-based number of that line, after which reading continues with the next line. "
  "The UTF-8 checked reader yields the same records, except that a line with a value that is not UTF-8 yields an error with the number of that line. "
  "Only errors of undecodable records count as skippable, and only when skipping is on; a gzip source yields the lines of all its members, and an I/O error is always reported.",
  ["inputs", "fault_sequences"], "all byte streams, chunkings of the reads and positions of invalid lines",
  "the tests read a few complete files with at most one bad line",
  ["src/reader.rs", "src/record.rs"],
  [("next_byte_record / next_string_record", "src/reader.rs"), ("skip_parse_err", "src/reader.rs")],
  state=[("line", "number of the line handed out last", "src/reader.rs"), ("buf", "bytes of the current line", "src/reader.rs")],
  observe=["RecordsIter::next_byte_record", "RecordsIter::next_string_record", "ReadPicaError"])

p("C04", "Tag and occurrence matchers select exactly the addressed fields",
  "An exact tag matches only that tag; a tag pattern matches a tag exactly when each of its four positions accepts the tag's byte ('.' any allowed byte, a class any listed byte or byte of a listed range). "
  "The occurrence matcher '*' matches everything, none matches a missing occurrence and 00, an exact occurrence only that text, and a range exactly the occurrences of the same width between both bounds; ranges with lower bound not below the upper or with bounds of unequal width are rejected. "
  "The printed form of a matcher is the text it was parsed from.",
  ["inputs"], "all tag patterns, occurrence matchers, tags and occurrences",
  "tests sample a handful of tags and occurrences; the property quantifies over all 8100 tags and 1101 occurrence values and every pattern",
  ["src/matcher/tag.rs", "src/matcher/occurrence.rs"],
  [("TagMatcher::is_match", "src/matcher/tag.rs"), ("OccurrenceMatcher::is_match", "src/matcher/occurrence.rs")],
  observe=["TagMatcher::is_match", "OccurrenceMatcher::is_match"])

p("C05", "Subfield predicates mean what the expression language documents",
  "A subfield predicate looks only at subfields whose code is listed; without quantifier or with ANY it holds when at least one of them satisfies the test, with ALL when all of them do (also when there is none). "
  "==, != compare whole values, =^, !^ prefixes, =$, !$ suffixes, =? any of the needles as substring, =* similarity above the threshold, =~ and !~ regular expressions, in / not in list membership; with case-ignore set all of these compare case-insensitively; existence and cardinality tests count the listed subfields with the six numeric comparisons. "
  "A negated operator is the negation of the test on a single value, not of the quantified result.",
  ["inputs", "configurations"], "all predicates, subfield lists and matcher options",
  "tests fix one or two values per operator; operators, quantifiers, options and repeated subfields interact",
  ["src/matcher/subfield/mod.rs", "src/matcher/operator.rs", "src/matcher/options.rs", "src/matcher/quantifier.rs"],
  [("is_match of the subfield matchers", "src/matcher/subfield/mod.rs"), ("comparison functions", "src/matcher/subfield/mod.rs")],
  observe=["SubfieldMatcher::is_match"])

p("C06", "Field and record matchers quantify over exactly the addressed fields",
  "A field predicate looks only at fields whose tag and occurrence match; existence holds when there is one, a subfield predicate on fields holds for ANY (or no quantifier) when one of them satisfies it and for ALL when all of them do, and '#' counts the addressed fields that satisfy the optional inner predicate and compares the count as written. "
  "Groups, '!', '&&', '||' and 'XOR' combine these results as Boolean operators at field and at subfield level. "
  "The result depends only on the record's fields and the matcher options.",
  ["inputs", "configurations"], "all expressions, records and options",
  "tests evaluate some expressions on a few records; the interaction of quantifiers, repeated fields, empty fields and counts is unbounded",
  ["src/matcher/field/mod.rs", "src/matcher/record.rs"],
  [("is_match of the field matchers", "src/matcher/field/mod.rs"), ("RecordMatcher::is_match", "src/matcher/record.rs")],
  observe=["RecordMatcher::is_match"])

p("C07", "Combining matchers programmatically is Boolean algebra, and prints as such",
  "Combining two matchers with &, |, ^, their assigning forms, or negating one with ! gives a matcher whose result on every record is that Boolean combination of the operands' own results, for any nesting and whatever operators the operands already contain. "
  "The text such a matcher prints parses back to a matcher with the same results. "
  "The matcher builder's and, or and not lists conjoin, disjoin and conjoin the negation of each listed expression onto the expression so far, in order, applying the configured text transformation to every expression.",
  ["inputs", "histories"], "all operand matchers, all sequences of operators, all records",
  "tests combine two simple operands; wrong grouping only shows with particular nestings",
  ["src/matcher/record.rs", "src/matcher/field/mod.rs", "src/matcher/subfield/mod.rs", "src/matcher/builder.rs"],
  [("operator implementations and their re-grouping", "src/matcher/*/mod.rs"), ("RecordMatcherBuilder", "src/matcher/builder.rs"), ("Display implementations", "src/matcher")],
  observe=["BitAnd/BitOr/BitXor/Not of the matchers", "RecordMatcherBuilder", "Display"])

p("C08", "Expressions parse with the documented precedence, independent of history",
  "A matcher expression is read with '!' before '&&' before 'XOR' before '||', chains grouping to the left, parentheses overriding, and layout, quoting style and string escapes not changing the meaning; the whole text must be consumed, otherwise it is rejected, and no text makes the parser panic. "
  "The text a parsed matcher prints parses again to a matcher with the same results. "
  "Whether a text is accepted, and what it means, does not depend on which texts were parsed or rejected before.",
  ["inputs", "histories"], "all expression texts and all sequences of parser calls in a process",
  "tests parse single expressions; precedence and grouping errors need nested operands and the nesting counter is shared by all parses of a thread",
  ["src/matcher/record.rs", "src/matcher/field/parser.rs", "src/matcher/subfield/parser.rs", "src/parser.rs"],
  [("composite parsers", "src/matcher/field/parser.rs, src/matcher/subfield/parser.rs"), ("nesting counter", "src/matcher/*/parser.rs, src/fmt/parser.rs"), ("string and code parsers", "src/parser.rs")],
  state=[("group level", "thread-local nesting counter of a parse", "src/matcher/field/parser.rs, src/matcher/subfield/parser.rs, src/fmt/parser.rs")],
  observe=["RecordMatcher::new", "SubfieldMatcher::new", "Format::new"])

p("C09", "A path yields exactly the addressed subfield values, in record order",
  "A path yields, in record order and with repetitions, the value of every subfield whose code is in any of the path's code lists and whose field matches the path's tag, occurrence and optional subfield filter under the given options; nothing else. "
  "Dotted, '$' and braced notations with the same parts are equivalent, first returns the first such value, and the PPN is the first value of 003@.0. "
  "The UTF-8 checked record yields the same values as text; the printed form of a path is the text it was parsed from.",
  ["inputs", "configurations"], "all paths, records and options",
  "tests evaluate a few paths on one or two records",
  ["src/path.rs", "src/parser.rs"],
  [("PathExt::path, first, ppn", "src/path.rs"), ("path parser", "src/path.rs")],
  observe=["PathExt::path", "PathExt::first", "PathExt::ppn"])

p("C10", "A query returns the Cartesian product of its fragments' rows",
  "Each fragment of a query gives rows: a literal its text; a path, for every addressed field in order, the combinations of its code lists' values (empty text where a list has no value, the last list varying fastest), or one row of empty texts if no field is addressed; a format its non-empty values, or one empty text. "
  "With squash, the values of one code list within a field become one value joined by the separator; with merge, all rows of a fragment become one row joined per column by the separator. "
  "The query's rows are all combinations of the fragments' rows in order, the last fragment varying fastest, each row the concatenation of one row per fragment.",
  ["inputs", "configurations"], "all queries, records, separators and option combinations",
  "tests fix single queries; products, repeated fields, missing values, squash and merge interact",
  ["src/query.rs"],
  [("Fragment::query", "src/query.rs"), ("Outcome addition, multiplication, squash, merge", "src/query.rs")],
  observe=["QueryExt::query"])

p("C11", "A format renders exactly the selected subfields of the selected fields",
  "A format yields, in record order, one text for every field that matches its tag, occurrence and optional subfield filter and whose rendering is not empty. "
  "A value renders, of the subfields with a listed code and in order, the first one by default, all with '..', the first N with '..N', each with prefix and suffix; '<*>' concatenates all parts, '<$>' concatenates parts up to the first empty one; groups render their content. "
  "Modifiers apply to the rendered text of the value or group they stand on, in the order first '@' removed, trimmed, spaces removed, lower case, upper case.",
  ["inputs", "configurations"], "all formats, records and options",
  "tests evaluate single formats on one record",
  ["src/fmt/mod.rs", "src/fmt/parser.rs"],
  [("fmt_field of value, list and group", "src/fmt/mod.rs"), ("Modifier::modify", "src/fmt/mod.rs"), ("format parser", "src/fmt/parser.rs")],
  observe=["FormatExt::format"])

p("C12", "Keep and discard project a record onto exactly the selected fields",
  "Keep with a non-empty list leaves exactly the fields that match at least one of the listed tag and occurrence predicates, discard with a non-empty list exactly those that match none; both keep the order, the repetitions and the content of the remaining fields, and an empty list changes nothing. "
  "What is written, iterated and digested afterwards is the projected record. "
  "Discard followed by keep equals filtering by both conditions.",
  ["inputs", "histories"], "all records and all predicate lists",
  "tests project one record with one or two predicates",
  ["src/record.rs", "src/primitives/record.rs", CLI + "utils.rs"],
  [("ByteRecord::retain, keep, discard", "src/record.rs"), ("parse_predicates", CLI + "utils.rs")],
  observe=["ByteRecord::keep", "ByteRecord::discard", "ByteRecord::retain"])

p("C13", "filter writes exactly the matching records, unchanged, in order",
  "The filter command writes, in input order across all its inputs, exactly the records that pass the deny- and allow-lists and for which the expression, combined with the --and, --or and --not expressions, holds (with --invert-match: does not hold), up to the given limit. "
  "Written records are the input bytes, or with --discard and --keep the projection onto the fields that are not discarded and are kept; --tee, --output, --append and gzip receive the same records. "
  "With --skip-invalid undecodable lines are skipped and have no other effect; without it the first one ends the run with an error.",
  ["inputs", "configurations"], "all record streams, expressions and option combinations",
  "the command tests fix one option at a time on one file and compare snapshots",
  [CLI + "commands/filter.rs", CLI + "utils.rs", CLI + "cli.rs", "src/reader.rs", "src/writer.rs", "src/record.rs"],
  [("record loop", CLI + "commands/filter.rs"), ("FilterSet::check", CLI + "utils.rs"), ("reader and writer", "src/reader.rs, src/writer.rs")],
  observe=["pica filter"])

p("C14", "slice writes exactly the records of the requested range",
  "The slice command numbers, from 0, across all inputs and in order, the records that pass the deny- and allow-lists and the --where expression together with the undecodable lines that --skip-invalid skips, and writes, unchanged and in order, exactly the records numbered from start up to but excluding end, or the first length many numbered from start, or all from start on. "
  "A limit ends the output after that many records. "
  "Without --skip-invalid the first undecodable line ends the run with an error.",
  ["inputs", "configurations"], "all record streams, ranges and option combinations",
  "the command tests use one input and few ranges",
  [CLI + "commands/slice.rs"], [("record loop and range", CLI + "commands/slice.rs")], observe=["pica slice"])

p("C15", "split and partition distribute records without loss, change or reordering",
  "split writes the selected records, in order and unchanged, into consecutively numbered files each holding exactly the chunk size (the last one at most that, at least one unless there are no records), so that the concatenation of the files is the selected input. "
  "partition writes every selected record exactly once into the file of each distinct value its path yields and into no other file, in input order within every file; records without a value go nowhere (values that are UTF-8 and usable as file names). A limit counts records, not copies. "
  "Both follow the file name template and produce the same content with gzip.",
  ["inputs", "configurations"], "all record streams, chunk sizes, paths and templates",
  "the command tests check file counts and one sample",
  [CLI + "commands/split.rs", CLI + "commands/partition.rs"], [("record loops", CLI + "commands/split.rs, " + CLI + "commands/partition.rs")],
  observe=["pica split", "pica partition"])

p("C16", "explode emits one record per unit of the level, with its inherited fields",
  "explode main emits every record unchanged. For records whose level-0 fields come first: explode local emits one record per local unit, in order, which is the level-0 fields followed by the unit's fields, where a unit ends after a level-2 field that is directly followed by a level-1 field; "
  "explode copy emits one record per maximal run of level-2 fields of a local unit with the same occurrence, which is the level-0 fields, the level-1 fields of the unit and the run. "
  "Within every emitted record the fields keep their input order and bytes, every level-1 and level-2 field of the input occurs in exactly one local unit, and every level-2 field in exactly one copy. "
  "Filters, keep, discard and limit apply to the emitted records.",
  ["inputs", "configurations"], "all record streams and option combinations",
  "the command tests explode two sample records",
  [CLI + "commands/explode.rs"], [("process_main/local/copy", CLI + "commands/explode.rs")], observe=["pica explode"])

p("C17", "select writes one row per query row, concat and sample lose nothing",
  "select writes, for every selected record in order, the rows of the query on that record as CSV or TSV, leaving out rows that are empty in every column, rows with an empty column with --no-empty-columns, and rows seen before with --unique. "
  "concat writes all records of its inputs in order, with --unique only the first of each IDN (records without one are dropped) or of each content hash. "
  "sample writes min(N, number of selected records) records, each a different position of the selected input and unchanged; with a seed the output is reproducible.",
  ["inputs", "configurations"], "all record streams, queries and option combinations",
  "the command tests fix one option at a time on one file",
  [CLI + "commands/select.rs", CLI + "commands/concat.rs", CLI + "commands/sample.rs"], [("record loops", CLI + "commands")],
  observe=["pica select", "pica concat", "pica sample"])

p("C18", "check reports exactly the rule violations",
  "For every record in scope and every selected rule, check reports the rule exactly once if the rule's condition fails on that record: filter (the expression matches, or with invert does not), allow and code lists (a value is not listed), datetime (a value does not parse), duplicates (a query row, its columns joined by the separator, occurs at least threshold times), ISNI (a value, spaces, hyphens and other bytes before 0 aside, is not 15 digits followed by the matching check character), unicode (a value is not in the normal form). "
  "The link rule reports, at the end, exactly the records in scope with a source value that is no target value of any selected record, in scope or not, whatever the order of records. "
  "Rule, tag and scope selection only leave rules or records out and change no other result. "
  "With fast termination (and no link rule) a rule set reports a record once if some rule fails on it, not at all otherwise.",
  ["inputs", "histories", "configurations"], "all record streams, rule sets and record orders",
  "the command tests run one rule each on a few records",
  [CLI + "commands/check"], [("rule checks", CLI + "commands/check/checks"), ("rule sets", CLI + "commands/check/set.rs, " + CLI + "commands/check/rule.rs")],
  observe=["pica check"])

p("C19", "invalid and skip-invalid commands partition every input",
  "For every input, invalid writes exactly the lines that do not decode as a record, byte for byte and in order, and concat or filter with --skip-invalid writes exactly the lines that do, so that every line of the input is in exactly one of the two outputs. "
  "This holds across several inputs, for gzip input, for lines that are not UTF-8 and for a last line without newline.",
  ["inputs"], "all byte streams",
  "the command tests use one file with a few bad lines",
  [CLI + "commands/invalid.rs", CLI + "commands/concat.rs", "src/reader.rs"], [("line loop", CLI + "commands/invalid.rs"), ("skip_parse_err", "src/reader.rs")],
  observe=["pica invalid", "pica concat -s"])

p("C20", "hash, print and convert render every record completely and in order",
  "hash writes for every selected record its PPN and the SHA-256 of its bytes; convert writes every record with all fields and subfields in order in the target format (plus: the input bytes; binary: fields, each ended by 0x1E, and 0x1D per record; import: an apostrophe, 0x1D and newline, then each field preceded by 0x1E and ended by newline; plain: '$' codes with '$' doubled, an empty line between records; json: one array per field of tag, occurrence or null, codes and values; xml: equivalent elements). "
  "print writes per field tag, occurrence and ' $code value' for every subfield, an empty line after each record. "
  "No record is lost, repeated or merged with its neighbour.",
  ["inputs", "configurations"], "all record streams and target formats",
  "the command tests convert one or two records",
  [CLI + "commands/hash.rs", CLI + "commands/print.rs", CLI + "commands/convert"], [("record writers", CLI + "commands/convert")],
  observe=["pica hash", "pica print", "pica convert"])

p("C21", "count, frequency and describe count every selected record exactly once",
  "count reports the numbers of selected records, of their fields and of their subfields. "
  "frequency reports every distinct non-empty query row with the number of its occurrences over the selected records (with --unique once per record), most frequent first (or least frequent first with --reverse), ties in lexicographic order, leaving out rows below the threshold and, after that, all but the first N. "
  "describe reports for every tag and code the number of such subfields in the kept fields of the selected records.",
  ["inputs", "configurations"], "all record streams and option combinations",
  "the command tests count one sample file",
  [CLI + "commands/count.rs", CLI + "commands/frequency.rs", CLI + "commands/describe.rs"], [("record loops", CLI + "commands")],
  observe=["pica count", "pica frequency", "pica describe"])

NA = {}
exec(open(os.path.join(V, "tools", "na.py")).read(), NA) if os.path.exists(os.path.join(V, "tools", "na.py")) else None
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
ids = [x["id"] for x in P]
checks = []
for i in ids:
    if i not in PROPS: continue
    d = PROPS[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py --property " + i, thorough_cmd="python3 check.py --property %s --tier thorough" % i,
        technique="contracts on the real functions (extracted on every run), discharged by Verus; executable contracts search the failing input" if d.get("units") else "executable contracts (pre- and postconditions evaluated on the real program), bounded",
        level="proof" if d.get("units") else "exploration",
        level_note=d.get("note", "bounded stand-in: the contract is evaluated on generated inputs against the real program, nothing is counted as proved" if not d.get("units") else "the obligations over the extracted functions are discharged for all inputs; trusts the extractor, Verus/Z3 and the stated meaning of library operations; the rest of the property is checked bounded on the real code and not counted as proved"),
        theorems=d.get("theorems", [])))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
    not_applicable=[dict(property=i, reason=NA.get("reasons", {}).get(i, "no check has been built for it yet")) for i in ids if i not in PROPS])
for c in m["checks"]:
    if not c["theorems"]: del c["theorems"]
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties", len(checks), "checks")
