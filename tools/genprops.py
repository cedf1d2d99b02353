#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the list is easier to maintain here)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Arbitrary bytes never cause memory errors, UB or hangs",
 "Whatever bytes a file or stream holds, reading its ID3v1 and ID3v2 tags, its track data and its MP3 duration, and printing or re-serialising whatever was read, either succeeds or reports an ordinary C++ exception. It never reads or writes outside its buffers, uses uninitialised or freed memory, executes undefined behaviour, aborts, or fails to finish in time reasonable for the size of the input.",
 ["inputs"], "every finite byte sequence, in particular truncated, corrupted and adversarial tags of every version, with and without audio",
 "the unit tests read a few dozen well-formed sample files; the space of malformed tags is unbounded and an overread is silent without instrumentation",
 ["scribbu/id3v2.cc", "scribbu/id3v22.cc", "scribbu/id3v23.cc", "scribbu/id3v24.cc", "scribbu/framesv2.cc", "scribbu/framesv22.cc", "scribbu/framesv23.cc", "scribbu/framesv24.cc", "scribbu/id3v1.cc", "scribbu/mp3.cc", "scribbu/scribbu.cc", "scribbu/id3v2-utils.cc"],
 [("frame bounds checks in the tag parsers", "id3v2_2_tag::parse, id3v2_3_tag::parse, id3v2_4_tag::parse"), ("frame-level field parsing", "parsing constructors in framesv2.hh/.cc"), ("MPEG header walk", "get_mp3_duration")],
 observe=["sanitizer reports, process exit, watchdog"])

prop("C02", "ID3v2 tags decode to exactly what the format says they hold",
 "Reading a well-formed ID3v2.2, 2.3 or 2.4 tag (plain or unsynchronised, with or without extended header, compressed frames, group/encryption markers, padding) reports its version, flags, size and padding, and exactly its frames, in order, each with the identifier, flags and payload it has in the file. Text frames, comments, user-defined text, file identifiers, play counts, ratings, tag clouds and private data come back with the values they were encoded with, both through frame iteration and through the tag's convenience accessors.",
 ["inputs"], "all well-formed ID3v2.2/2.3/2.4 tags built from any sequence of frames, text encodings and layout options",
 "tests compare a fixed handful of sample files with hard-coded values; combinations of layout features (unsynchronisation x compression x encoding x ordering) are not sampled",
 ["scribbu/id3v2.cc", "scribbu/id3v22.cc", "scribbu/id3v23.cc", "scribbu/id3v24.cc", "scribbu/framesv2.cc", "scribbu/framesv22.cc", "scribbu/framesv23.cc", "scribbu/framesv24.cc"],
 [("tag parsing", "id3v2_{2,3,4}_tag::parse"), ("frame factories", "generic and text frame parser registries"), ("resynchronisation", "id3v2_tag::resynchronise")])

prop("C03", "Writing an ID3v2 tag then reading it back loses nothing",
 "Serialising any tag, whether read from a file, built in memory or edited, with or without unsynchronisation, produces exactly the number of bytes the tag reports for that choice (plus its ten-byte header), and a well-formed tag of the same version. Reading those bytes back gives the same frames in the same order with the same contents and flags, and the same padding and extended-header facts.",
 ["inputs", "histories"], "all tags reachable by parsing or by construction and editing, for both unsynchronisation choices, written any number of times",
 "tests write a few tags once; size/emission mismatches depend on byte patterns (sync bytes at boundaries), caches and edit order",
 ["scribbu/id3v2.hh", "scribbu/id3v22.cc", "scribbu/id3v23.cc", "scribbu/id3v24.cc", "scribbu/framesv2.cc", "scribbu/framesv22.cc", "scribbu/framesv23.cc", "scribbu/framesv24.cc"],
 [("tag serialisation", "id3v2_{2,3,4}_tag::write / size"), ("serialised-frame caches and dirty flag", "id3v2_2_frame, id3v2_3_plus_frame")],
 state=[("cache_", "cached serialised forms of a frame", "framesv22.hh, framesv2.hh"), ("dirty_", "whether the cached forms are stale", "framesv2.hh")])

prop("C04", "Unsynchronised output has no false syncs and decodes back exactly",
 "When a tag is written with unsynchronisation, everything after its header contains no byte 0xff followed by a byte of 0xe0 or more, and undoing the scheme yields exactly the bytes that are written without it. A frame or tag whose plain serialisation contains such a pair says it needs unsynchronisation, and one that contains neither such a pair nor 0xff 0x00 says it does not.",
 ["inputs"], "all byte strings and all tags, in particular runs of 0xff, 0xff at frame boundaries and 0xff 0x00 sequences",
 "tests try a few byte strings; the boundary cases are combinatorial",
 ["scribbu/id3v2.cc", "scribbu/id3v2.hh", "scribbu/framesv2.cc", "scribbu/framesv2.hh"],
 [("unsynchronise / resynchronise", "scribbu::detail::unsynchronise, id3v2_tag::resynchronise"), ("false sync detection", "detail::is_false_sync, needs_unsync, count_syncs")])

prop("C05", "Text survives encoding conversion",
 "Converting text to any supported encoding that can represent it and back yields the same text, with a leading byte-order mark, for encodings with an explicit byte order, exactly when one was requested, for text of any length and content. Text that cannot be represented is treated exactly as the chosen policy says: an error, a transliteration, or omission.",
 ["inputs", "configurations"], "all Unicode strings x all supported source and destination encodings x all replacement policies",
 "tests convert a few short strings between three encodings",
 ["scribbu/charsets.cc", "scribbu/charsets.hh"],
 [("iconv-based conversion", "convert_encoding (both overloads)")])

prop("C06", "Editing a tag in memory behaves like editing a list of frames",
 "After any sequence of appending, inserting, replacing, erasing and deleting frames, setting text fields, comments, play counts and padding, the tag holds exactly the frames that a plain ordered list given the same edits would hold, in the same order. Every lookup by frame identifier, text accessor, comment, user-defined-text, popularimeter and play-count accessor agrees with that list.",
 ["histories"], "all finite sequences of public editing operations on tags of every version, starting from empty or parsed tags",
 "tests perform one or two edits on a sample; index bookkeeping errors need particular sequences (delete before a later frame, then look it up)",
 ["scribbu/id3v2.hh", "scribbu/id3v22.cc", "scribbu/id3v22.hh", "scribbu/id3v23.cc", "scribbu/id3v23.hh", "scribbu/id3v24.cc", "scribbu/id3v24.hh"],
 [("frame list and its lookup tables", "add_frame_to_lookups / remove_frame_from_lookups, insert, erase, push_back, delete_frame")],
 state=[("frames_", "the ordered frames", "id3v2{2,3,4}.hh"), ("frame_map_, text_map_, comms_, pcnts_, popms_", "lookup tables indexed by position", "id3v2{2,3,4}.hh")])

prop("C07", "Copies of tags and frames are equal and independent",
 "Copying, cloning or assigning a tag (ID3v1 or ID3v2) or a frame gives an object that reads, prints, looks up and serialises exactly like the original. Later changes to either one never affect the other.",
 ["histories", "inputs"], "all tags of all versions, with and without extended header, copied at any point of any edit history",
 "copy operations are scarcely exercised by the tests, and aliasing or lost bookkeeping appears only on a later use of the copy",
 ["scribbu/id3v2.hh", "scribbu/id3v22.cc", "scribbu/id3v23.cc", "scribbu/id3v24.cc", "scribbu/framesv2.hh", "scribbu/id3v1.hh"],
 [("copy constructors, assignment and clone", "id3v2_{2,3,4}_tag, id3v2_*_frame::clone")])

prop("C08", "Rewriting a file's tags never touches anything but the tags",
 "Replacing the ID3v2 tags at the front of a file, by copying or in place, leaves the file holding exactly the serialised new tags followed by precisely the bytes that followed the old tags. A file that had no tags gains them in front of its unchanged content, a missing file is created holding just the tags, and adjusting padding so that new tags fit the old space changes nothing but padding.",
 ["inputs", "histories", "configurations"], "all files (any audio bytes, any number and version of existing tags, with or without ID3v1) x all new tagsets x all unsynchronisation, emplacement and padding choices",
 "tests rewrite two or three samples; losing or duplicating audio bytes needs specific size relations between old and new tags",
 ["scribbu/tagset.hh", "scribbu/id3v2-utils.cc"],
 [("copying replacement", "replace_tagset_copy"), ("in-place replacement", "replace_tagset_emplace, maybe_emplace_tagset, adjust_padding_to")])

prop("C09", "Backups preserve the original bytes and are never overwritten",
 "When a rewrite is asked to keep a backup, a new file next to the original holds exactly the bytes the original had before the rewrite. No existing file, including earlier backups, is ever overwritten or removed, however often files are rewritten and however the path is spelled.",
 ["histories", "inputs"], "all sequences of rewrites with and without backups, over absolute and relative paths and directories already holding arbitrary backup-like names",
 "tests rewrite a file once or twice through one path spelling",
 ["scribbu/tagset.hh", "src/command-utilities.cc"],
 [("backup naming", "get_backup_name"), ("backup creation", "replace_tagset_copy, maybe_emplace_tagset")])

prop("C10", "A failed or interrupted rewrite leaves the old or the new file",
 "If any file-system operation fails, or the process is killed, at any point while a file's tags are being replaced by copying, the file's path afterwards holds either exactly its old content or exactly its new content, or the old content is intact in the backup just made. A failure that is survived is reported to the caller, never silently ignored.",
 ["fault_sequences", "crash_points"], "every single failure (no space, short write, I/O error, permission, rename across devices) and every kill point at each file-system call made during a copying replacement",
 "tests never inject failures",
 ["scribbu/tagset.hh"],
 [("write to a temporary file, then rename", "replace_tagset_copy")],
 observe=["file-system calls, via an interposer"])

prop("C11", "ID3v1 tags round-trip and are edited without touching the audio",
 "Any ID3v1, ID3v1.1 or enhanced ID3v1 tag reads back with exactly the fields it was written with (cut to the format's field widths), occupies exactly 128 or 355 bytes, and re-serialises byte-for-byte. Adding, replacing or removing the ID3v1 tag of a file changes only the trailing tag bytes, and replacing a tag twice by the same one is the same as replacing it once.",
 ["inputs", "histories"], "all field values of any length, all three tag layouts, all files and all sequences of replacements and removals",
 "tests check three sample tags and a couple of replacements",
 ["scribbu/id3v1.cc", "scribbu/id3v1.hh"],
 [("parsing and writing", "id3v1_tag::standard_ctor, enhanced_ctor, write"), ("in-file editing", "replace_id3v1, maybe_remove_id3v1, ends_in_id3v1")])

prop("C12", "Audio identity: track size, MD5 and split are independent of the tags",
 "For every file, the reported track size and MD5 are those of precisely the bytes between the last leading ID3v2 tag and the trailing ID3v1 tag (if any). Splitting a file writes pieces whose concatenation is the original file, and adding, editing or removing tags never changes the track's reported size or MD5.",
 ["inputs", "histories"], "all files of any length with any number of ID3v2 tags and any kind of ID3v1 tag, and all tag edits on them",
 "tests compare a few fixed digests; block-boundary and very small file cases are not sampled",
 ["scribbu/scribbu.cc", "src/split.cc", "scribbu/id3v2-utils.cc"],
 [("track extents and digest", "track_data, find_id3v1_tag, compute_track_md5"), ("split", "src/split.cc")])

prop("C13", "Reported MP3 duration matches the stream's own headers",
 "For every well-formed MPEG-1, 2 or 2.5 Layer III stream the reported duration equals the number of its frames (or the number its variable-bit-rate header declares, when it declares frames and bytes) times the duration of one frame, for every bit rate, sampling rate, padding and channel mode. A stream of another layer, or without a usable MPEG frame, is reported as such rather than given a made-up duration.",
 ["inputs"], "all MPEG 1/2/2.5 layer I-III streams, constant or variable bit rate, with or without Xing/Info/VBRI headers, with or without surrounding tags",
 "tests measure three sample files",
 ["scribbu/mp3.cc", "scribbu/mp3.hh"],
 [("frame header decoding", "mp3_audio_frame"), ("frame walk and VBR headers", "get_mp3_duration, vbri_header, xing_header")])

prop("C14", "Name templates expand to the tag values they name",
 "Expanding a file-name template for a file substitutes each field with the corresponding value of that file's tags or contents, formatted as its options ask, copies literal text (with escapes) unchanged, and includes an optional group exactly when every field directly inside it has a value. The result depends only on the template and the file, not on templates or files processed earlier, and a malformed template or unavailable mandatory value is an error rather than a wrong name.",
 ["inputs", "histories"], "all templates in the template language x all files x all orders of evaluation",
 "tests expand a few templates on one sample file",
 ["scribbu/tbt-support.cc", "scribbu/tbt-support.hh", "scribbu/tbt-parser.yy", "scribbu/tbt-lexer.ll", "scribbu/id3v2-utils.cc"],
 [("template parsing", "tbt-lexer.ll, tbt-parser.yy"), ("field evaluation", "tbt-support.cc process_*")])

prop("C15", "Renaming never loses or overwrites a file",
 "Renaming or copying files by template leaves every file's bytes reachable under its old or its new name, and never overwrites or merges an existing file, even when several files map to the same name, the target exists, or copying fails half way. A dry run creates, changes and removes nothing.",
 ["inputs", "histories", "configurations"], "all sets of files, including collisions, name cycles and existing targets, and all option combinations",
 "the shell test renames one file",
 ["src/rename.cc"],
 [("rename sub-command", "src/rename.cc process_file")])

prop("C16", "Ratings and play counts: exact arithmetic, only on the selected frames",
 "Incrementing or setting play counts and ratings changes exactly the play-count and popularimeter frames selected by the given options (tag index, owner, frame kind) to exactly the requested values, for counters of any width without wrap-around, and creates frames or tags exactly when the creation options say so. Every other frame, tag and audio byte stays as it was.",
 ["inputs", "configurations", "histories"], "all files x all option combinations x all counter values, including repeated application",
 "the shell test runs a few invocations on one sample",
 ["src/popm.cc", "scribbu/framesv2.hh", "scribbu/framesv2.cc", "src/command-utilities.cc"],
 [("counter arithmetic", "play_count / popularimeter count, inc"), ("popm sub-command", "src/popm.cc")])

prop("C17", "Text edits set exactly the requested fields and nothing else",
 "Setting or deleting title, artist, album and other text fields from the command line makes exactly the selected tags report exactly the given values (or no such field), creating tags only as the creation options say. An ID3v1 tag, if present, is given the title, artist and album (in ASCII, transliterated where necessary) unless particular ID3v2 tags were selected; every other frame, tag and audio byte of the file stays as it was.",
 ["inputs", "configurations", "histories"], "all files x all field values (any Unicode text) x all option combinations",
 "the shell test sets two fields on one sample",
 ["src/text.cc", "src/command-utilities.cc"],
 [("text sub-command", "src/text.cc"), ("tag scoping and writing", "tagset_processor in src/command-utilities.cc")])

prop("C18", "Genre edits and genre matching are exact",
 "Setting a genre makes exactly the selected tags report it, as the right number in ID3v1 and the requested text in ID3v2, and leaves everything else as it was (choosing tags by index chooses among a file's ID3v2 tags; its ID3v1 tag takes part unless only ID3v2 is asked for). Best-match lookup of a name returns the known genre at the least edit distance from it (insertions, deletions, substitutions, adjacent transpositions), the number/name mapping is a fixed table, and matching is deterministic.",
 ["inputs", "configurations"], "all genre names of any length, all files, all option combinations",
 "tests try a dozen names and a few invocations",
 ["src/genre.cc", "scribbu/winamp-genres.cc", "src/command-utilities.cc"],
 [("edit distance and table", "scribbu/winamp-genres.cc"), ("genre sub-command", "src/genre.cc")])

prop("C19", "Tag clouds: reading, merging and replacing key/value tags is exact",
 "A tag cloud written in its URL-encoded form and read back is the same set of keys and values; merging adds exactly the given keys and values, replacing leaves exactly the given ones, and other owners' clouds are untouched. URL encoding followed by decoding is the identity for every string, and querying never changes the file.",
 ["inputs", "histories"], "all maps from non-empty strings to sets of strings, all merge/replace sequences, all owners",
 "tests try two or three literal clouds",
 ["src/xtag.cc", "scribbu/framesv2.cc", "scribbu/framesv2.hh", "scribbu/scribbu.cc"],
 [("tag cloud frame", "tag_cloud"), ("URL coding", "urlencode, urldecode"), ("xtag sub-command", "src/xtag.cc")])

prop("C20", "Queries and dry runs never modify anything",
 "Dumping, reporting, printing playlists, listing encodings, querying tag clouds, and any command run as a dry run leave every file and directory they are pointed at byte-for-byte unchanged and create or remove nothing (other than an explicitly named output file). A command that fails on its arguments changes nothing either.",
 ["inputs", "configurations"], "all files and directories x all query commands and dry-run options",
 "tests look at the output, not at the inputs afterwards",
 ["src/dump.cc", "src/report.cc", "src/m3u.cc", "src/encodings.cc", "src/xtag.cc", "src/popm.cc", "src/text.cc", "src/genre.cc", "src/rename.cc", "src/command-utilities.cc"],
 [("read-only sub-commands", "src/*.cc"), ("dry-run handling", "tagset_processor::process_file")])

prop("C21", "Reports have one well-formed row per track with the right columns",
 "Every CSV or tab-delimited report has one header row and exactly one row per track that can be read, each with the same number of columns, and reading a row back with a standard parser for that format yields the track's directory, file name, audio facts and the values of its first ID3v2 tag and ID3v1 tag, whatever characters those contain. CSV carries every character; in tab-delimited output, delimiters and line breaks within a value become spaces.",
 ["inputs", "configurations"], "all files, tag texts (including separators, quotes and line breaks), numbers of comment columns and encodings",
 "tests compare with two golden outputs over tame sample files",
 ["src/report.cc", "scribbu/csv-pprinter.cc", "scribbu/csv-pprinter.hh", "scribbu/tdf-pprinter.cc", "scribbu/tdf-pprinter.hh"],
 [("row printing and escaping", "csv_pprinter, tdf_pprinter")])

prop("C22", "JSON output is valid and faithful",
 "Dumping tags as JSON always produces syntactically valid JSON whose strings, numbers and frame lists carry the values the tags hold, for tags of every version and any text content. A file whose text cannot be converted is reported as an error and left out as a whole, never dumped in part.",
 ["inputs"], "all tags of all versions with any text",
 "tests compare with one golden file",
 ["scribbu/json-pprinter.cc", "scribbu/json-pprinter.hh", "src/dump.cc"],
 [("JSON printing", "json_pprinter")])

prop("C23", "Tags read into Scheme and written back are preserved",
 "Reading a file's ID3v2 tags or its ID3v1 tag into Scheme gives objects holding what the tags hold, and writing them back unmodified leaves every tag's version, frames, their order, contents and flags and the audio as they were; a frame or tag field changed in Scheme is the only thing that changes, and frames and tags made in Scheme are written as made; a program that gives values of the wrong kind, length or range either gets an exception, the file unchanged, or tags that can be read. (Contents are the decoded contents, up to trailing blanks: extended headers, frame grouping and compression are not represented in Scheme, nor are texts with embedded NULs or comments in languages unknown to ISO 639-2.)",
 ["inputs", "programs"], "all files with any mixture of supported frames, and all single-field edits",
 "the Scheme tests round-trip a few hand-made frames",
 ["scribbu/scheme.cc", "scribbu/scheme-serde.cc", "scheme/scribbu.scm"],
 [("frame conversion", "scheme_serde"), ("read-tagset / write-tagset", "scribbu/scheme.cc")])

prop("C24", "Independent files and tags can be processed on several threads",
 "Threads that read, edit, print, measure and write distinct files and distinct tag objects concurrently never race with one another, and each thread obtains exactly the result it would obtain alone.",
 ["schedules"], "all interleavings of any number of threads working on disjoint files and tags",
 "the tests are single-threaded",
 ["scribbu/scribbu.cc", "scribbu/id3v22.cc", "scribbu/id3v23.cc", "scribbu/id3v24.cc", "scribbu/id3v2.cc", "scribbu/pprinter.cc", "scribbu/winamp-genres.cc"],
 [("mutex-guarded parser registries", "get_default_*_parser in id3v22.cc, id3v23.cc, id3v24.cc"), ("thread-local dispatch", "pprinter.cc")])

prop("C25", "Playlist entries name the right track, length and path",
 "Each M3U entry printed for a track gives its duration rounded to whole seconds, its artist and title (or file name when it has none) on one line, and a path that leads to that track, one entry per track in order. Writing to a playlist file starts a new one with the format's header; appending keeps everything already there and repeats no header.",
 ["inputs", "configurations"], "all tracks, tag contents, path spellings and output modes",
 "the shell test prints entries for two samples",
 ["src/m3u.cc"],
 [("m3u sub-command", "src/m3u.cc")])

prop("C26", "Probing a stream leaves it where it was",
 "Asking whether a stream or file holds an ID3v1 or ID3v2 tag, failing to read one, or reading the ID3v1 tag at a file's end leaves a good stream's read position and error-reporting mode as they were, and successfully reading an ID3v2 tag leaves the position just past it. So any sequence of probes and reads on one stream gives the same answers as each would on a fresh one.",
 ["inputs", "histories"], "all streams, positions within them, error-reporting modes, and sequences of probing and reading calls",
 "tests call each probe once from the start of a fresh stream",
 ["scribbu/id3v2.cc", "scribbu/id3v2-utils.cc", "scribbu/id3v1.cc", "scribbu/scribbu.cc", "scribbu/mp3.cc"],
 [("position and mask save/restore", "looking_at_id3v2, maybe_read_id3v2, ends_in_id3v1, process_id3v1, find_id3v1_tag, find_sync")])

prop("C27", "Walks in Scheme visit every file exactly once, with its own tags",
 "Walking a directory tree from Scheme with with-track-in, flat-file-system-tree or fs-tree-generator visits every regular file below it exactly once, under a path that leads to it, and nothing else; with-track-in hands over that file's own ID3v2 tags and ID3v1 tag (none for a file whose tags cannot be read), and a walk changes no file. has-frame? and get-frames agree with the tag's list of frames, in order.",
 ["inputs"], "all directory trees of regular files and directories (to any depth, empty ones included), all file contents and names in UTF-8",
 "the Scheme tests walk one directory of sample files",
 ["scribbu/scheme.cc", "scheme/scribbu.scm"],
 [("with-track-in", "scribbu/scheme.cc"), ("tree walks and frame queries", "scheme/scribbu.scm")])

prop("C28", "Readable dumps show every tag, frame and track as it is",
 "Dumping files in the standard format prints, for each file asked for and in turn, its name and modification time, each of its ID3v2 tags with version, flags, main fields, every frame in order with its decoded values, and padding, then the size and MD5 of the track data and the ID3v1 tag's fields. Options choose exactly which of those sections and which files are shown, the indentation and whether genres are spelled out, and what is printed for one file or frame never depends on those printed before.",
 ["inputs", "configurations"], "all files, tags of all versions with frames of all kinds, and combinations of options",
 "tests compare with two golden outputs over tame sample files",
 ["scribbu/pprinter.cc", "scribbu/pprinter.hh", "src/dump.cc"],
 [("standard pretty-printer", "standard_pprinter"), ("dump sub-command", "src/dump.cc")])

prop("C29", "Headers of MPEG audio frames decode to the fields they hold",
 "The four bytes of every MPEG-1, 2 or 2.5 Layer III frame header decode to the version, bit rate, sampling rate, frame size and duration the standard gives them, and a header with a reserved or unsupported value is refused with an error that gives a reason, never decoded as something else. The Xing/Info or VBRI header in the first frame of a variable bit rate track is recognised where it stands, its frame count and size are reported as written, and the stream is left just past the frame that was read.",
 ["inputs"], "all frame headers (all 8192 combinations of their second and third bytes are tried), variable bit rate headers with any set of optional fields, and junk before the first frame",
 "the one test of this reads two sample files",
 ["scribbu/mp3.hh", "scribbu/mp3.cc"],
 [("frame headers", "mp3_audio_frame"), ("variable bit rate headers", "mp3_vbr_tag, xing and VBRI classes in scribbu/mp3.cc")])

prop("C30", "Names of encodings, languages and frames mean one thing only",
 "Every character encoding, language, text frame and conversion policy has a name that reads back as itself, names follow their standards (ISO 639 for languages, the ID3v2 specifications for frames), the list of encodings printed for the user is exactly the list of those accepted, and nothing else is accepted as a name. Frame identifiers hold exactly the characters they were made of however they were made, and compare and hash accordingly.",
 ["inputs"], "all encodings, languages, two-letter codes, text frames and policies there are, all locale settings, and all other strings and identifiers",
 "tests look up a handful of names",
 ["scribbu/charsets.hh", "scribbu/charsets.cc", "scribbu/framesv2.hh", "scribbu/framesv2.cc", "src/encodings.cc"],
 [("names of encodings and languages", "scribbu/charsets.cc"), ("frame identifiers and text frame names", "scribbu/framesv2.cc")])

prop("C31", "Invocations reach the part they name, whole, with an honest status",
 "The scribbu program runs a sub-command on exactly the arguments that follow its name, and a script (FILE, -s FILE, -c EXPR or standard input) with all remaining arguments, unchanged and in order; global options before it have the effect documented for them, and the script's exit status becomes the program's. Asking for help or the version prints that (or runs man or info on the right page), exits with status zero and does nothing else. An unknown option, missing value, missing file argument or missing script ends in a non-zero status with a message on standard error, nothing on standard output and no file changed.",
 ["inputs", "configurations"], "all command lines: global options, sub-commands, scripts, and arguments with any characters",
 "the tests call sub-commands one way each, with tame arguments",
 ["src/scribbu.cc", "src/command-utilities.cc", "src/command-utilities.hh", "scribbu/scheme.cc"],
 [("global options and dispatch", "handle_options and main in src/scribbu.cc"), ("help", "maybe_handle_help in src/command-utilities.cc")])

prop("C32", "Ripping a list of tracks encodes and tags each one as asked",
 "For every line of the tracks file but comments and blank ones, contrib/rip-tracks encodes the .wav named there, once and in order, and leaves one .mp3, named after the template, tagged with just the title and track number on that line, the line's artist (or else the one given), LAME as encoder, and the album, year and genre given, whichever way the options are spelled. A track lacking artist, title or number, or one that cannot be encoded, ends the run with a non-zero status and a message naming it, the tracks before it being done and no other file touched. Mistaken options, a missing template or an unreadable list encode nothing.",
 ["inputs", "configurations"], "all tracks files, options and spellings thereof, titles with any character the encoding admits",
 "no test runs it: it needs an encoder",
 ["contrib/rip-tracks.in", "src/text.cc", "src/rename.cc"],
 [("options", "the case statement in contrib/rip-tracks.in"), ("tracks", "the loop over the list in contrib/rip-tracks.in")])

prop("C33", "Tags and frames shown in Scheme show what they hold",
 "A tag or frame object made in Scheme holds exactly the values it was given and the documented default for each other slot, independently of every other object. Displaying a tag or frame, to any port and however it is printed, shows exactly what it holds at that time: an ID3v1 tag's artist and title; an ID3v2 tag's first artist, first title and padding; a frame's kind or identifier and its text, language, description, e-mail, rating, count, owner or tags, with binary data as its first eight bytes at most, in hexadecimal and ASCII. Displaying changes nothing.",
 ["inputs", "histories"], "all classes of tags and frames, all combinations and values of their slots, all sequences of changes to them",
 "the tests display a tag or two as they come from one file",
 ["scheme/scribbu.scm", "scribbu/scheme-serde.cc"],
 [("classes and displays", "define-class and define-method display in scheme/scribbu.scm"), ("bytes", "pp-bytevector in scheme/scribbu.scm")])

prop("C34", "Working on files gives back all memory and descriptors",
 "Reading, editing, printing, converting, rewriting or failing to do so, any number of times in one process, leaves no more memory allocated and no more file descriptors open than doing it a few times: what is held never grows with the number of files worked on, whether they are well-formed, damaged or missing, and however the work on each ends. This holds for the library, for every sub-command, and (for descriptors) for the procedures offered to Scheme. (Compiling a malformed template, and non-local exits from a procedure handed to with-track-in, are not work on a file.)",
 ["inputs", "histories"], "all files, well-formed or not, all sequences of operations, all sub-commands, and all the ways they fail",
 "the tests read each file once, in a process that ends soon after",
 ["scribbu/id3v2.cc", "scribbu/id3v22.cc", "scribbu/id3v23.cc", "scribbu/id3v24.cc", "scribbu/charsets.hh", "scribbu/tagset.hh", "scribbu/scheme.cc"],
 [("buffers and frames while parsing", "id3v2_3_tag::parse, id3v2_4_tag::parse in scribbu"), ("conversion descriptors", "iconv_specific::descriptor in scribbu/charsets.hh"), ("temporary files", "replace_tagset_copy in scribbu/tagset.hh"), ("Scheme", "read_tagset in scribbu/scheme.cc")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
