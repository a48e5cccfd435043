#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays valid JSON)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=list(files),
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))

p("C01","Stored objects are returned byte for byte",
 "Whatever non-empty byte sequence is stored, by whatever splitting into reads and across however many silos, retrieving it by the ID printed at store time delivers exactly those bytes, in order, once, and storing it never aborts. This holds before and after index housekeeping and regardless of which other objects were stored before or after it. The headers delivered with it carry the stated content type, the digest of the whole payload and its total length.",
 ["inputs","configurations","histories"],
 "every payload, every chunking of the input, every silo size that can hold the headers, every sequence of stores, every compressibility",
 "test01..test05 store a handful of fixed files with one or two silo sizes; the boundary where the output space shrinks below the flush margin, and how the padding and headers vary with sizes, is only hit for particular size combinations.",
 ["segjob.c","wsilo.c","getjob.c","rsilo.c","main_store.c","main_get.c"],
 [("SegJob_Feed output steering","segjob.c"),("Wsilo_Header reservation and padding","wsilo.c"),("GetJob_New segment chasing","getjob.c"),("Rsilo_ReadChunk","rsilo.c")],
 [("struct segjob","object being split into segments","segjob.c"),("struct getjob.segs","ordered segments of an object","getjob.c")],
 ["stdout/-o file of get","ID printed by store"])

p("C02","IDs are a function of content only",
 "The ID of a stored resource is the configured-length prefix of the SHA256 of its bytes, and the ID of a metadata object that of SHA256 over its reference URI (as in WARC-Refers-To, with the angle brackets), newline, SHA256 of its bytes in hex, newline. Segmentation, silo size, read chunking, the time, and earlier history of the archive never influence it, and the ID printed, the ID in the record header and the ID in the index agree.",
 ["inputs","configurations","histories"],
 "every payload, chunking, silo size, ID length (64..256 bits) and history",
 "The tests compare a few IDs for fixed inputs; they cannot show that the ID of a segmented object equals that of the same object unsegmented for all sizes.",
 ["ident.c","segjob.c","main_store.c"],
 [("Ident_Create","ident.c"),("Ident_Set / Digest2Ident","ident.c"),("SegJob_Commit","segjob.c")],
 [],["ID printed by store","WARC-Record-ID header","index key"])

p("C03","Silo size limit and complete segment chains",
 "No silo file ever becomes larger than the configured maximum size. An object that does not fit in one silo is stored as segments numbered 1,2,3..., each the first object of a different silo, whose bodies concatenate to the object; the first carries the payload digest, each later one refers to the first one's ID, and only the last one carries the total length. An object that fits in one silo is stored unsegmented.",
 ["inputs","configurations","histories"],
 "every object size relative to every maximum silo size, every fill level of existing silos",
 "Tests use one or two silo sizes; exact-fill boundaries depend on the interplay of header size, compressed length and trailer size.",
 ["segjob.c","wsilo.c"],
 [("Wsilo_GetSpace","wsilo.c"),("silo_attempt_append size checks","wsilo.c"),("SegJob_Commit","segjob.c"),("segjob_newseg","segjob.c")],
 [("hold_len","bytes written to the silo being built","wsilo.c")],["silo files"])

p("C04","Silo contents are permanent",
 "Once bytes are in a silo they are never changed, moved or removed: operations may only append to a silo, and only if it is not write-protected and nobody holds it. A new silo never replaces an existing file, and no operation that completes leaves a hold file of its own behind.",
 ["histories","inputs","configurations","fault_sequences"],
 "every sequence of store / mksilo / housekeeping / reindex / get operations over every mixture of full, partly filled, write-protected and held silos, and every contents of the cache file",
 "Tests look at final results of single histories; they never compare old silo bytes nor exercise held or read-only silos in combination with append.",
 ["wsilo.c","aardwarc.c","main_mksilo.c"],
 [("O_EXCL hold files","wsilo.c Wsilo_New / silo_attempt_append"),("link(2) instead of rename(2)","wsilo.c Wsilo_Install"),("S_IWUSR check","wsilo.c silo_attempt_append"),("O_APPEND","wsilo.c")],
 [("cache_first_non_silo / cache_first_space_silo","hints where to look for space","aardwarc.c")],["silo directory"])

p("C05","Every silo is a valid sequence of self-delimiting WARC records",
 "Every silo file, at all times (except where a process was killed in the middle of appending to it), is an exact concatenation of records: a gzip member with the WARC header, a gzip member with the body, and a fixed gzip member holding CRLF CRLF. Each header and body member carries its own exact compressed length in its extra field, so walking by these lengths visits exactly the stored records and ends at end of file. The first record is a warcinfo naming the silo, and the Content-Length and block digest of every record describe its body.",
 ["inputs","histories","configurations"],
 "every sequence of stores and mksilo, every size and compressibility",
 "Tests only check with audit on a few silos; the length bookkeeping varies with header size, padding and flush sizes.",
 ["gzip.c","wsilo.c","segjob.c","warcinfo.c","rsilo.c"],
 [("Gzip_WriteAa / Gzip_ReadAa / Gzip_AddAa","gzip.c"),("Wsilo_Finish","wsilo.c"),("Rsilo_NextHeader","rsilo.c"),("Warcinfo_New","warcinfo.c")],
 [],["silo files"])

p("C06","Index lookup returns exactly the matching entries",
 "A lookup with any hexadecimal prefix of any length, in either case, visits exactly the index entries whose key begins with that prefix, each with the flags, silo, offset and continuation prefix it was inserted with, whether they are in the unsorted appendix, in the housekeeping snapshot or in the sorted index. The visitor can stop the walk with any non-zero value, which is returned, and a lookup that matches nothing ends normally.",
 ["inputs","histories"],
 "every set of entries, every key distribution, every prefix, every split over the three index files, every index size up to the 40-bit limit",
 "Tests look up a handful of SHA256-distributed keys in tiny indexes; skewed or large indexes, keys colliding with file headers and short prefixes are not reachable by samples.",
 ["index.c"],
 [("IDX_Insert / IDX_Iter","index.c"),("bucket_seek and the bucket table","index.c")],
 [("index.sorted bucket table","largest safe starting offset per key range","index.c")],["IDX_Iter callbacks","dumpindex","byid"])

p("C07","Housekeeping preserves the index",
 "Index housekeeping changes the set of index entries in no way: afterwards the sorted index contains every entry that was in the sorted index, a left-over snapshot or the appendix, in ascending order, and nothing else, for every sort-buffer size and any duplicates. Appendix and snapshot are gone, the hold file is removed, every lookup gives the same answers as before, and repeating housekeeping changes nothing.",
 ["inputs","histories","configurations"],
 "every set and order of entries, duplicates, sort buffer boundary positions, repeated housekeeping",
 "Tests housekeep one or two small archives once with the default 10M sort buffer.",
 ["index.c","main_housekeeping.c"],
 [("IDX_Resort / idx_attempt_merge","index.c"),("idx_merge","index.c"),("bucket_new/bucket_update/bucket_write","index.c")],
 [],["index files","IDX_Iter"])

p("C08","Housekeeping never loses entries, whatever interrupts it",
 "If housekeeping is killed at any point, fails to open or read the snapshot, or gets short reads, every index entry is still found by lookup afterwards, and a later housekeeping run (after removing a stale hold file) completes and preserves all of them. A second housekeeping while one is in progress leaves everything untouched, as do stores that insert entries while it runs.",
 ["crash_points","fault_sequences","schedules"],
 "every prefix of the file operations of a housekeeping run, every short read, every failed open, every point at which another process inserts or tries to housekeep",
 "No test interrupts housekeeping or injects a fault.",
 ["index.c"],
 [("link + unlink of the appendix, rename of the merged file, unlink of the snapshot last","index.c idx_attempt_merge / idx_merge"),("index.hold O_EXCL","index.c IDX_Resort")],
 [("index.housekeep","snapshot still searched by lookups","index.c")],["IDX_Iter"])

p("C09","Reindex reproduces the index from the silos",
 "Deleting the index and rebuilding it with reindex yields the same set of entries as the stores produced, whatever order the silos are given in and however the segments of objects are spread over them, so every object remains retrievable. Reindexing over an existing index adds no wrong entries, and reindexing a subset of silos adds exactly the entries of these silos (the first segment is only linked to a continuation which is in the index or among them).",
 ["histories","inputs"],
 "every archive content (segmented objects of any number of segments, interleaved, metadata), every order and grouping of silos",
 "test02 reindexes one archive in one order and only diffs the result for it.",
 ["main_reindex.c","index.c"],
 [("got_seg / try_seg / emit_seg","main_reindex.c"),("reindex_iter rematch","main_reindex.c")],
 [("segs","segments whose neighbours have not been seen","main_reindex.c")],["index files","get"])

p("C10","Audit reports exactly the damaged objects",
 "Audit reports an error for every record whose body does not match its block digest, length, recorded compressed length or ID, and for every segmented object whose segments are missing or do not add up to its payload digest, total length and ID. On an undamaged archive it reports no error (IDs given explicitly to metadata are excused only with -i), and without arguments it examines every silo in the archive. Aborting on an undecodable body and naming an incomplete object as left over count as reports; the exit status is not part of this.",
 ["inputs","histories","fault_sequences"],
 "every single-record damage (any header field value, any body byte), every archive, any number of silos including gaps in their numbering",
 "The tests audit undamaged archives and look at one or two hand-made corruptions.",
 ["main_audit.c","rsilo.c"],
 [("audit_one / audit_check_*","main_audit.c"),("audit_one_pending / audit_final_pending","main_audit.c"),("audit_silo","main_audit.c")],
 [("segment_list","segments waiting for their siblings","main_audit.c")],["audit stdout"])

p("C11","Get never passes off damaged content as good",
 "If the stored bytes, their length or the headers of an object no longer agree with its digest, retrieving it (uncompressed) ends in failure, never in a successful exit after delivering different bytes; retrieving it compressed fails if anything of the record is missing. A damaged or dangling index entry likewise leads to a failure or to not-found, not to another object's bytes.",
 ["inputs","fault_sequences"],
 "every single-byte change to silo or index and every truncation",
 "No test corrupts an archive and retrieves from it.",
 ["main_get.c","getjob.c","rsilo.c"],
 [("digest and length check after delivery","main_get.c"),("ID comparison with the record header","getjob.c")],[],["get exit status"])

p("C12","Gzip delivery is one equivalent gzip stream",
 "Retrieving an object gzip-compressed delivers exactly one gzip member that decompresses to the object's bytes, with correct CRC and length, for segmented and unsegmented objects alike and for both endings the compressor can produce. The result does not depend on how the segment data is chunked while stitching, and a consumer that stops early is not called again.",
 ["inputs","configurations"],
 "every number and size of segments, every chunking, both final-block encodings",
 "Tests stitch one archive with the chunk sizes the program happens to use.",
 ["gzip.c","getjob.c","rsilo.c"],
 [("gzip_stitch_*","gzip.c"),("Rsilo_ReadGZChunk","rsilo.c")],[("gzip_stitch.state/tailbuf","position in the current member","gzip.c")],["get -z output"])

p("C13","An ID selects exactly the object with that ID",
 "Retrieval by a full ID delivers the object with exactly that ID, even if other index entries share its stored key prefix, other continuation segments share the stored next-segment prefix, or several segments have identical content and thus identical IDs. An ID that is only a warcinfo, only a continuation segment or not present is refused with an error message, and no such coincidence makes the program abort.",
 ["inputs","histories"],
 "every combination of colliding and coinciding IDs and every order of index entries",
 "Prefix collisions of SHA256 values cannot be produced by a test that stores real files.",
 ["getjob.c","index.c"],
 [("getjob_iter","getjob.c"),("GetJob_New","getjob.c")],[],["get output","error message"])

p("C14","Storing existing content again changes nothing",
 "Storing an object whose ID is already in the archive reports the same ID and leaves silos and index entries unchanged, however it is chunked, whether or not it is segmented, whatever the current state of the index, and leaves no hold file behind.",
 ["inputs","histories"],
 "every object and every archive already holding it (appendix, sorted index, segmented or not)",
 "Tests re-store one small file once.",
 ["segjob.c","getjob.c"],
 [("GetJob_New in SegJob_Commit","segjob.c"),("Wsilo_Abandon","wsilo.c")],[],["silo directory","index","ID printed by store"])

p("C15","A store interrupted at any point does no harm",
 "If a store is killed at any point or one of its file operations fails, all previously stored objects remain retrievable, lookups by any ID do not abort, and storing the same object again (after removing stale hold files) succeeds and makes it retrievable. An ID that store has printed stays retrievable after any crash that follows.",
 ["crash_points","fault_sequences"],
 "every prefix of the file operations of a store, for appended, new-silo and segmented objects",
 "No test kills a store.",
 ["wsilo.c","segjob.c","index.c"],
 [("order of link(2), append and IDX_Insert","wsilo.c Wsilo_Commit / Wsilo_Install / silo_attempt_append")],[],["get","store"])

p("C16","Concurrent operations on one archive do not interfere",
 "Stores running at the same time on one archive each succeed, use different holds, and every object they print an ID for is retrievable with its own bytes; silos stay well-formed and within their size limit. Lookups and retrievals running during a store or housekeeping find everything that was complete before they started.",
 ["schedules"],
 "every point between two file operations of one process at which another process's whole operation runs",
 "Tests run one process at a time.",
 ["wsilo.c","index.c","silo.c"],
 [("exclusive hold files","wsilo.c"),("O_APPEND single-write inserts","index.c"),("re-check of size after taking the hold","wsilo.c silo_attempt_append")],[],["silo directory","get"])

p("C17","WARC headers survive writing and reading",
 "A set of header fields serialised and parsed again yields the same fields, values and record ID, with names matched case-insensitively, at most one field per name, and fields ordered by name. Setting a field replaces its old value, deleting removes it, a clone is independent of its original, the predicted field length is the serialised length, and a number is returned only for values made up entirely of digits, without overflow.",
 ["inputs"],
 "every set of field names and values without control characters, every order of operations",
 "Only exercised with the program's own few fields.",
 ["header.c"],
 [("Header_Set ordering","header.c"),("Header_Serialize / Header_Parse","header.c"),("Header_Get_Number","header.c"),("Header_Len","header.c")],[],["Header_* API"])

p("C18","Configuration is read as written",
 "The configuration parser assigns every entry to the section it stands under, ignores comments and surrounding white space, rejects NUL and invalid UTF-8 bytes, finds sections and entries case-insensitively and never accesses memory outside the file, whatever the file contains. Sizes are converted exactly (decimal fractions, exponents, k/M/G/T/P suffixes, optional B), anything else is refused with a message, and an archive is only opened if all its settings satisfy their documented limits.",
 ["inputs","configurations"],
 "every configuration file and size string",
 "test00 tries a dozen bad configurations.",
 ["config.c","vnum.c","aardwarc.c"],
 [("config_parse","config.c"),("Config_Get/Find/Iter","config.c"),("VNUM_2bytes","vnum.c"),("AardWARC_New","aardwarc.c")],[],["Config_* API","AardWARC_New errors"])

p("C19","Protocol frames are transported unchanged",
 "Every command 0..7 with every payload length written to the stow connection is read back as the same command and length followed by exactly the payload, also when frames follow each other and reads return short. End of stream at a frame boundary is reported as such and inside a frame header as an error; event handlers are called only while enabled and with their own descriptor, and dispatch ends when the last is deleted.",
 ["inputs","schedules"],
 "every command, length (0, 32, <256, up to 32 bits) and sequence of frames; every subset of ready descriptors",
 "The only test of the connection is one full stow run.",
 ["proto.c"],
 [("proto_out length encodings","proto.c"),("proto_in","proto.c"),("proto_dispatch_evs","proto.c")],[],["proto_* API"])

p("C20","Line assembly is independent of chunking",
 "Bytes arriving in any chunks are delivered as exactly the lines they contain, in order, each once, terminated at CR or LF, with incomplete trailing data kept for the next chunk. Processing always terminates without memory errors, also when a line does not fit the buffer, and a non-zero return of the consumer stops it and is passed on.",
 ["inputs","schedules"],
 "every byte stream, every chunking, every buffer size",
 "Not unit-tested; the program only feeds short lines.",
 ["vlu.c"],
 [("LineUpProcess","vlu.c"),("VLU_Feed / VLU_Fd / VLU_File","vlu.c")],[],["VLU_* API"])

p("C21","String buffers hold exactly what was put in",
 "A string buffer contains exactly the concatenation of everything added to it and a terminating NUL, whatever the sizes and order of the additions and however often it had to grow; a fixed buffer never writes past its end and reports overflow as an error. Clearing, indentation and quoting behave as documented for every content.",
 ["inputs","histories"],
 "every sequence of additions with every length around the growth boundaries and every buffer size",
 "Only exercised through typical short messages.",
 ["vsb.c"],
 [("VSB_extend","vsb.c"),("VSB_vprintf retry loop","vsb.c"),("VSB_quote_pfx","vsb.c")],[],["VSB_* API"])

p("C22","Silo numbering and naming is one-to-one and complete",
 "Every silo number maps to a distinct path under the silo directory with no directory holding more than 100 silos, a silo's hold file never coincides with any silo, and iterating over the archive visits every existing silo exactly once in ascending order, with gaps and with any number of silos, and stops when the visitor says so, passing on its value. The cache of silo numbers is only a hint: whatever plausible numbers it contains, objects are stored, found and never overwritten.",
 ["inputs","histories","configurations"],
 "every 32-bit silo number, every set of existing silos, every cache contents",
 "Tests create a handful of silos numbered from 0.",
 ["silo.c","aardwarc.c"],
 [("numpart / Silo_Filename","silo.c"),("Silo_Iter","silo.c"),("AardWARC_ReadCache/WriteCache","aardwarc.c")],[],["Silo_* API"])

p("C23","Filter answers correctly for every input line",
 "For any list of IDs, in any order, with duplicates, in either case, with or without prefix and with trailing text, filter reports each input line in input order as missing or present correctly: present exactly if the archive index has an entry for that ID (with header checking: exactly if there is a record with that full ID). The -r and -v options only change which lines are printed and how.",
 ["inputs","histories"],
 "every list of IDs and every index (appendix, sorted, colliding prefixes)",
 "Tests filter a few lists against a small index.",
 ["main_filter.c"],
 [("read_file / sort","main_filter.c"),("filter_iter merge walk","main_filter.c"),("filter_s_check","main_filter.c")],[("sorted","candidates not yet found","main_filter.c")],["filter stdout"])

p("C24","Stow transfers every missing file exactly once and records it",
 "In a stow run, for every listed file whose content the archive lacks, the file is requested, sent and stored exactly once, files already present are not sent, and the mtree listing and the metadata object with changed files are stored last; responses are matched to files in order whatever the batching and interleaving. The server side answers each filter request exactly once and in order, feeds store jobs exactly the bytes sent, and copes with end of input at any point. The client ends successfully only if the server has acknowledged the metadata and ended successfully. (A file which has vanished or become empty since it was listed makes the run fail.)",
 ["schedules","inputs","histories"],
 "every subset of present files, every batching of requests and responses, every readiness order",
 "test04 performs one stow run with whatever timing occurs.",
 ["main_stow.c","main_stevedore.c","proto.c"],
 [("filter_queue and filter_skip","main_stevedore.c"),("wait_list / get_list / ack_list","main_stow.c")],[("filter_queue","IDs waiting for the filter job","main_stevedore.c")],["protocol frames"])

p("C25","CGI responses are well-formed and truthful",
 "For every request the CGI program emits either a response with the object's content type, a content length equal to the number of body bytes that follow and exactly the object's bytes (gzip-encoded only if the client accepts gzip and the response says so), or an error page; nothing else is ever output. Requests without the required CGI environment are refused.",
 ["inputs"],
 "every environment (method, path, accepted encodings), every object incl. segmented ones",
 "test03 issues a few requests.",
 ["main_cgi.c","getjob.c"],
 [("main_cgi","main_cgi.c"),("GetJob_TotalLength","getjob.c")],[],["CGI stdout"])

p("C26","Listings and lookups by partial ID are complete",
 "Listing the index, optionally restricted by ID part and type, prints exactly the matching entries with their true fields, and looking records up by ID fragment prints exactly the records whose ID starts with the fragment and exits with their number (at most 255, or zero with -e). Malformed fragments and types are refused.",
 ["inputs","histories"],
 "every index contents, every fragment and type",
 "Tests list one small index.",
 ["main_dumpindex.c","main_byid.c"],
 [("dumpindex_iter","main_dumpindex.c"),("byid_iter","main_byid.c")],[],["stdout","exit status"])

p("C27","Rebuild rewrites silos without changing their records",
 "Rebuilding a silo produces a new file with the same records in the same order, with identical headers (except the obsolete and padding fields) and bodies, correctly recompressed and self-delimiting, whatever the record sizes and however reads and decompression chunk them, and leaves the original untouched. A record of the old form (with a WARC-record-digest) gets the block digest and the record ID of its content instead; otherwise it, too, is unchanged.",
 ["inputs","configurations"],
 "every sequence of records and body sizes, every chunking",
 "Tests do not run rebuild on silos whose bodies straddle buffer boundaries.",
 ["main_rebuild.c"],
 [("rebuild_process state machine","main_rebuild.c")],[("rebuild.state/rlen","position within the current record","main_rebuild.c")],["rebuilt silo files"])

p("C28","Every accepted spelling of an ID means the same object",
 "An ID is accepted exactly if it is a hexadecimal string of the configured length, optionally preceded by the configured prefix, in either case; everything else is refused with an error and without aborting. All accepted spellings of an ID behave identically in retrieval, as reference of metadata, as forced ID and in the error case.",
 ["inputs","configurations"],
 "every argument string, every configured prefix and length",
 "Tests try a few malformed IDs.",
 ["index.c","getjob.c","main_store.c","ident.c"],
 [("IDX_Valid_Id","index.c"),("Ident_Set","ident.c"),("main_store -r / -i","main_store.c")],[],["exit status","error message"])

p("C29","Metadata is only stored for existing objects and is retrievable",
 "Storing metadata requires a permitted MIME type and a reference to an object that exists in the archive; otherwise nothing is stored and an error is reported. Accepted metadata refers to exactly that object, gets its content-derived or explicitly given ID, is indexed as metadata and can be retrieved with its bytes (an explicitly given ID which is taken already is reported, and nothing stored); option combinations that make no sense are refused.",
 ["inputs","histories","configurations"],
 "every combination of options, types, references and archive contents",
 "Tests store a few metadata objects with one or two option combinations.",
 ["main_store.c","segjob.c","ident.c"],
 [("main_store","main_store.c"),("mime_type","main_store.c")],[],["store exit status","record headers","index flags"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
if s:
    for d in P: jsonschema.validate(d,s)
print(len(P),"properties")
