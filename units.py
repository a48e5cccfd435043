# Harness units: which properties they decide, entry point, bounds per tier.
UNITS = []
ASSUMPTIONS = [
 "zlib is replaced by a model of its documented contract (env/env_zlib.c): streaming, any output space, stored or run-length coded blocks with sizes comparable to the real ones, CRC-32 and Adler as injective functions of the bytes; the compressed bytes are not those of the real library",
 "SHA-256 is an injective function without collisions except where a harness chooses digests to share digits (env/env_zlib.c)",
 "file system: in memory, sequentially consistent; a crash keeps every operation completed before it and a prefix (at 32-byte positions) of the write under way: no loss or reordering by a power failure",
 "pipes hold any amount; stat(2) and malloc(3) do not fail spuriously; text arguments contain no NUL; the clock stands still within a run",
 "processes interleave at system calls and library calls on files only; other processes run as a whole at such a point (store, housekeeping, get), children of the stow server run to completion once their input is complete",
 "clang -O1 IR of the sources stands for the compiled program; sampled paths of each unit are replayed on a gcc build with AddressSanitizer at every run and must behave the same",
]
def u(name, props, file, entry, bounds, quick, thorough=None, args=None, **kw):
    UNITS.append(dict(name=name, props=props.split(), file=file, entry=entry, bounds=bounds, quick=quick, thorough=thorough or {}, args=args or {}, **kw))

u("vlu_feed", "C20", "h_vlu", "h_vlu_feed", "streams of 1..n bytes (1..255 each), any two cuts, every buffer size 2..n+2, consumer stopping at line 0, 1 or never",
  dict(time=60, args=dict(n=5), max_inst=300000), dict(time=500, args=dict(n=8)))
u("vlu_fd", "C20", "h_vlu", "h_vlu_fd", "as vlu_feed, read(2) returning at most 1..n bytes at a time; also VLU_File",
  dict(time=60, args=dict(n=5), max_inst=300000), dict(time=500, args=dict(n=7)))
u("vlu_reset", "C20", "h_vlu", "h_vlu_reset", "1..3 bytes before and after a reset", dict(time=30))
u("vsb_ops", "C21", "h_vsb", "h_vsb_ops", "sequences of ops (bcat, cat, printf, putc, clear, indent by 2, 5, 30 or back) with lengths 0,1,3,15,16,17,4080 (0..9 on a 9-byte fixed buffer), first and last byte symbolic; auto, caller's 4-byte and fixed buffers",
  dict(time=150, args=dict(ops=3, nlens=7)), dict(time=700, args=dict(ops=4, nlens=6)))
u("vsb_quote", "C21", "h_vsb", "h_vsb_quote", "any n bytes (and up to six zeros in hexadecimal), eight quoting modes, with and without a prefix", dict(time=100, args=dict(n=3)), dict(time=600, args=dict(n=4)))
u("ident_valid", "C28", "h_ident", "h_ident_valid", "0..17 characters, any w consecutive ones arbitrary, after no prefix / the prefix with one arbitrary character / the prefix in upper case; 64-bit IDs", dict(time=60, args=dict(w=3)), dict(time=700, args=dict(w=8)))
u("ident_digest", "C28 C18", "h_ident", "h_ident_digest", "every ID length 64..256, any hex digits", dict(time=60))
u("ident_create", "C02 C28 C29", "h_ident", "h_ident_create", "four record types, four ID lengths, any digest, reference with four arbitrary digits; forced ID in three spellings", dict(time=60))
u("vnum", "C18", "h_conf", "h_vnum", "[space tab + -] 0..2 digits [. 0..2 decimals of 1,6] [e2 e+1 e-1 e10 e-02] [space] [kMGTP either case] [b B !], exact oracle", dict(time=100), dict(time=600, args=dict(digits=3)))
u("vnum_any", "C18", "h_conf", "h_vnum_any", "any text of 0..3 bytes", dict(time=60), dict(time=400, args=dict(n=4)))
u("vnum_range", "C18", "h_conf", "h_vnum_range", "list of sizes outside and inside the range, percentages", dict(time=30))
u("conf_any", "C18", "h_conf", "h_conf_any", "any file of 0..n bytes", dict(time=60, args=dict(n=4)), dict(time=600, args=dict(n=6)))
u("conf_window", "C18", "h_conf", "h_conf_window", "three configuration texts with any w consecutive bytes arbitrary", dict(time=90, args=dict(w=2)), dict(time=600, args=dict(w=4)))
u("settings", "C18", "h_conf", "h_settings", "one setting at a time varied: ID length any 1..3 digits, any last character of prefix and directory, lists of basenames and sizes", dict(time=60))
u("settings_missing", "C18 C22", "h_conf", "h_settings_missing", "required settings present or not", dict(time=30))
u("header_ops", "C17", "h_header", "h_header_ops", "ops set/delete over 8 names (5 distinct up to case), values of 0..2 arbitrary bytes without CR, LF, NUL; serialise, clone, parse", dict(time=80, args=dict(ops=3)), dict(time=700, args=dict(ops=4)))
u("header_number", "C17", "h_header", "h_header_number", "values of 0..3 arbitrary bytes; 17..21 digits around the limit", dict(time=60))
u("header_ref", "C17", "h_header", "h_header_ref", "four ID lengths, over-long IDs, four dates", dict(time=30))

u("proto_roundtrip", "C19", "h_proto", "h_proto_roundtrip", "any command, every payload length 0..260 and 511..70000 (list), followed by a second frame of 0,1,32,255,256 bytes; first eight and last payload bytes symbolic; header read one byte at a time", dict(time=60))
u("proto_header", "C19", "h_proto", "h_proto_header", "any five header bytes, stream cut after 0..5 bytes", dict(time=30))
u("proto_msg", "C19", "h_proto", "h_proto_msg", "message texts of 3, 255, 303 bytes", dict(time=30))
u("proto_ev", "C19", "h_proto", "h_proto_ev", "three events; every callback may delete, disable or enable any of them; up to `steps` acting callbacks", dict(time=60, args=dict(steps=3)), dict(time=600, args=dict(steps=5)))

u("idx_lookup", "C06", "h_index", "h_idx_lookup", "n entries with sw arbitrary leading key bytes spread in every way over appendix, snapshot and sorted index; queries of 1,2,3,4,7,23,24,25,32,64 digits, arbitrary where keys are, either case, or none",
  dict(time=100, args=dict(n=2, sw=1)), dict(time=700, args=dict(n=3, sw=1)))
u("idx_fields", "C06", "h_index", "h_idx_fields", "arbitrary flags, and arbitrary bytes in last key byte, silo, offset, continuation prefix", dict(time=60, args=dict(n=1)), dict(time=300, args=dict(n=2)))
u("idx_big", "C06 C07", "h_index", "h_idx_big", "index of 16384, 16385 or 33000 entries (thorough: also 70000) made by housekeeping in several runs, keys evenly spread, half of them in 1/128 of the range, or in a quarter of it only; half of them inserted twice or not; lookups of 1, 2, 4, 16, 24 digits at `probes` places, or just before or behind an entry", dict(time=150, max_inst=4000000000, args=dict(dups=1,**{"from":0},to=2,probes=8)), dict(time=700, max_inst=4000000000, args=dict(dups=1,**{"from":0},to=3,probes=24)))
u("idx_stop", "C06", "h_index", "h_idx_stop", "n entries everywhere, visitor stopping at any with any non-zero value", dict(time=60))
u("idx_insert", "C06", "h_index", "h_idx_insert", "0..2 earlier entries of arbitrary bytes, key lengths 16..64, arbitrary digits, flags, silo, offset, continuation", dict(time=90))
u("idx_housekeep", "C07", "h_index", "h_idx_housekeep", "n entries with an arbitrary leading key byte and two possible rest values, spread in every way over the three files; sort buffers of 1,2,3,128 entries; repeated",
  dict(time=150, args=dict(n=3, look=0)), dict(time=800, args=dict(n=4, look=0)))
u("idx_housekeep_look", "C07 C06", "h_index", "h_idx_housekeep", "as idx_housekeep, followed by any one-digit lookup (thorough: or two-digit)",
  dict(time=150, args=dict(n=2, look=1)), dict(time=800, args=dict(n=2, look=2)))
u("idx_crash", "C08", "h_index", "h_idx_crash", "n entries in every place, killed before each file system change (writes torn at 0, 20, 40 bytes), sort buffers of 1,2,128 entries", dict(time=150, args=dict(n=3)), dict(time=700, args=dict(n=4)))
u("idx_fault", "C08", "h_index", "h_idx_fault", "n entries, each open failing or each read short", dict(time=100, args=dict(n=3)), dict(time=700, args=dict(n=5)))
u("idx_concurrent", "C08 C16", "h_index", "h_idx_concurrent", "insertion, second housekeeping or lookups before each file system call of a housekeeping", dict(time=150, args=dict(n=2)), dict(time=700, args=dict(n=3)))
u("idx_insert_race", "C08 C16", "h_index", "h_idx_insert_race", "complete housekeeping before each file system call of an insertion", dict(time=60))
u("idx_lookup_race", "C08 C16", "h_index", "h_idx_lookup_race", "complete housekeeping before each file system call of lookups", dict(time=100, args=dict(n=2)), dict(time=400, args=dict(n=3)))

u("store_one", "C01 C02 C03 C04 C05 C12 C14", "h_store", "h_store_one", "one object of lo, lo+step .. hi bytes (incompressible with arbitrary first, middle and last byte, or one run), read in one of `chunks` ways, silo.max_size max .. max+(nmax-1)*maxstep; stored, got, got -z, stored again, housekeeping, got, stored again", dict(time=150, args=dict(lo=1,hi=4000,step=43,chunks=3)), dict(time=800, args=dict(lo=1,hi=4500,step=9,chunks=6)))
u("store_sparse", "C01 C03 C12", "h_store", "h_store_sparse", "incompressible data of 4 lengths followed by a run of nrun lengths up to 192000 bytes; four ID lengths; silo.max_size max", dict(time=100, args=dict(max=4500,nrun=6)))
u("store_huge", "C01 C02 C03 C05 C12 C14", "h_store", "h_store_huge", "silo.max_size around and above the 1 MB write buffer; one object of half a silo to 1.5 silos, a small object before or behind it; read at once or in pieces; stored again", dict(time=150, max_inst=2000000000), dict(time=500, max_inst=4000000000, args=dict(nmax=4)))
u("store_far", "C01 C03 C05 C09 C14", "h_far", "h_far", "silo.max_size of 2^20 .. 2^62; silos whose second record ends (its body is a run of zero bytes) at 2^31-8 .. 2^40, with room for 0, 100, 3000 or 2^33 bytes; an object and metadata stored behind it or in a new silo, got, stored again, housekeeping, reindex", dict(time=100), dict(time=400))
u("store_many", "C01 C02 C03 C04 C05 C12 C13 C14 C29", "h_store", "h_store_many", "ops stores out of 7 kinds (small, segmented, identical segments, metadata of any earlier object, contents of a warcinfo, contents of a segment, segmented metadata), housekeeping before any; IDs arbitrary, sharing 24 digits or sharing 8", dict(time=200, args=dict(ops=3,modes=3)), dict(time=800, args=dict(ops=4,modes=3)))
u("store_crash", "C15 C05", "h_crash", "h_crash", "earlier small and segmented object; store of a small, segmented, metadata or one-silo object killed before its first..last-th change of the file system (writes torn after 0, 1, 20, 300 bytes, rounded to 32-byte file positions); digests unrelated or sharing 24 digits; then lookups of every index entry, store again, further store, housekeeping", dict(time=150, args=dict(hk=0, last=40)), dict(time=600, args=dict(hk=1, last=60)))
u("store_fault", "C15 C01 C04", "h_crash", "h_fault", "as store_crash, but one of the first..last-th file operations fails (nothing or half written), or reading the input fails after 0, 1/4, 1/2, 3/4 or all but one byte", dict(time=150, args=dict(hk=0, last=60)), dict(time=600, args=dict(hk=1, last=90)))
u("store_conc", "C16 C03 C04 C05", "h_conc", "h_conc_store", "store of a small, segmented, metadata or compressible object; before any one of its file system calls another process runs: store of another small, segmented, metadata or the same object, housekeeping, get, byid, or all silos are write-protected (run by root); empty archive or not", dict(time=150, args=dict(ny=8)), dict(time=600, args=dict(ny=9)))
u("conc_turns", "C16 C03 C04 C08", "h_conc2", "h_conc2", "two commands A and B out of small store, segmented store, metadata store, housekeeping, byid (`pfrom`..`pto` of 12 pairs): A runs up to any of its calls about files in the archive directory, B up to any of its, A to its end, B to its end; other contents; archive with room, nearly full silo, or (thorough) sorted index or empty", dict(time=150, args=dict(pto=3)), dict(time=800, args=dict(pto=11,same=2,thto=2)))
u("reindex", "C09", "h_reindex", "h_reindex", "seven lists of up to four objects (small, segmented in 2..3, identical segments, metadata, segmented metadata), IDs arbitrary or sharing 8 or 24 digits, three forms of silo names; reindex of everything, of all silos in any order (rotations and reversals beyond four), or one of them twice", dict(time=150), dict(time=600))
u("reindex_some", "C09", "h_reindex", "h_reindex_some", "as reindex, any subset of the silos in one or two steps, over the existing index or none", dict(time=150, args=dict(lists=5, modes=2)), dict(time=700, args=dict(lists=6)))
u("reindex_crash", "C09", "h_reindex", "h_reindex_crash", "segmented store killed before its first..last-th change of the file system (nothing torn) and repeated; reindex of everything or in any order", dict(time=150), dict(time=500, args=dict(lists=4)))
u("audit_good", "C10", "h_damage", "h_audit_good", "seven lists of up to four objects, IDs arbitrary or sharing 8 or 24 digits; audit of everything or of all silos in either order", dict(time=100, args=dict(modes=3)))
u("audit_forced", "C10", "h_damage", "h_audit_forced", "metadata of 60 or 2500 bytes with an explicit ID", dict(time=30))
u("audit_damage", "C10", "h_damage", "h_damage_audit", "any one record of the lists damaged consistently with its gzip member in one of 14 ways (any other body byte at 3 places, body shorter, longer, emptied or zeroed; any other digit at 3 places of block digest, length, ID, payload digest, total length, segment number, origin; recorded length one more or less; field missing)", dict(time=150), dict(time=500, args=dict(modes=3)))
u("audit_missing", "C10 C11", "h_damage", "h_audit_missing", "five lists with segmented objects; any segment's silo missing or replaced by that of any other segment", dict(time=100))
u("damage_get", "C11", "h_damage", "h_damage_get", "as audit_damage; existing or rebuilt index; get of every object", dict(time=150), dict(time=500, args=dict(modes=3)))
u("damage_raw", "C11", "h_damage", "h_damage_raw", "any other value of a byte of the last record of any silo (all of the gzip headers and trailers and of the CRLF member, every 8th of the header text, every 23rd of the body)", dict(time=150, args=dict(lists=3)), dict(time=600))
u("damage_cut", "C11", "h_damage", "h_damage_cut", "any silo cut off at every `step`-th byte", dict(time=100, args=dict(lists=3, step=17)), dict(time=600, args=dict(step=5)))
u("damage_index", "C11", "h_damage", "h_damage_index", "any one index entry damaged: any other value of a key, flag or continuation byte, 7 silo numbers, the offset of any record, 7 displacements", dict(time=150), dict(time=500, args=dict(modes=3)))
u("stitch", "C12", "h_gzip", "h_stitch", "1..segs members of 1, 13, 30 arbitrary bytes, one or two blocks, both endings, with or without a flush before; one of them fed in pieces of any size (first at least 24 bytes), then byte by byte; consumer stopping at any of the first calls or never", dict(time=120, args=dict(segs=2,lens=2)), dict(time=600, args=dict(segs=3,lens=3)))
u("gzip_vsb", "C12 C05", "h_gzip", "h_gzip_vsb", "texts of 13 lengths up to 3000 bytes, levels 0 and 9", dict(time=60))
u("gzip_aa", "C05", "h_gzip", "h_gzip_aa", "any length, any previous one", dict(time=30))
u("get_big", "C12 C01", "h_gzip", "h_get_big", "objects of one or two segments whose gzip members end 22 bytes before to `range`-22 after the size read at once (page size set to 1024)", dict(time=100), dict(time=400, args=dict(range=90)))
u("silo_names", "C22", "h_silo", "h_silo_names", "any two different silo numbers, both in 0..max or both in the last max numbers; four forms of silo.basename", dict(time=120, args=dict(max=20000)), dict(time=700, args=dict(max=2147483647)))
u("silo_iter", "C22 C10", "h_silo", "h_silo_iter", "up to n silos among 17 numbers at the ends of directories of every level; other things there; visitor stopping at any with 77 or -1", dict(time=100, args=dict(n=2)), dict(time=600, args=dict(n=4)))
u("silo_cache", "C22 C04 C01", "h_silo", "h_silo_cache", "three archives; cache absent, short, or with first number anywhere up to the end plus one or 199 and four choices of the other; two stores of 120 or 2500 bytes", dict(time=100), dict(time=400, args=dict(lists=7)))
u("silo_protect", "C04 C01", "h_silo", "h_silo_protect", "four archives; any subset of the silos (and the next number) held or write-protected; store of 60, 300 or 2500 bytes, with or without cache", dict(time=100), dict(time=400, args=dict(lists=7)))
u("byid", "C26", "h_list", "h_byid", "seven lists of up to four objects; IDs arbitrary or sharing 8 or 24 digits; fragments of 13 lengths 0..40 with an arbitrary last digit (one fragment, index as stored; otherwise two digits), either case, three forms of prefix; one or two of them, with or without -e; index as stored, rebuilt, sorted", dict(time=150, args=dict(lists=1, modes=2, idx=2, lens=8)), dict(time=700))
u("byid_many", "C26", "h_list", "h_byid_many", "254..512 matches (list)", dict(time=60))
u("frag_bad", "C26", "h_list", "h_frag_bad", "fragments of 1..n characters, any one arbitrary", dict(time=60))
u("dumpindex", "C26", "h_list", "h_dumpindex", "0..n entries with 7 kinds of flags, 4 silos and offsets, keys with bytes varied, in appendix, snapshot and sorted index; no, one or two ID parts out of 6; four types", dict(time=100, args=dict(n=1)), dict(time=600, args=dict(n=2)))
u("dump_type", "C26", "h_list", "h_dump_type", "the three types with any one character arbitrary", dict(time=60))
u("filter", "C23 C04", "h_filter", "h_filter", "seven lists of up to four objects; IDs arbitrary or sharing 8 or 24 digits; index unsorted, sorted or mixed; lo..n lines, each the ID of any of four records, as is or with digit 0, 7, 23, 24 or 31 changed, in six forms (prefix in two cases, upper case, trailing text); -s, -r, -v, -o in all combinations; from standard input, file, '-', both; empty lines",
  dict(time=150, args=dict(lists=1, modes=1, idx=1, n=2, forms=2, io=4, ways=3)), dict(time=700, args=dict(n=2)))
u("filter_any", "C23", "h_filter", "h_filter", "as filter, one line with an arbitrary digit in the place changed",
  dict(time=100, args=dict(lists=1, modes=3, idx=2, n=1, any=1)), dict(time=600, args=dict(n=1, any=1)))
u("filter_short", "C23", "h_filter", "h_filter", "as filter, IDs of 64 bits",
  dict(time=100, args=dict(lists=1, modes=2, idx=2, n=1, short=1, io=4)), dict(time=600, args=dict(n=2, short=1)))
u("filter_order", "C23", "h_filter", "h_filter", "as filter, two or three lines",
  dict(time=100, args=dict(lists=1, modes=1, lo=2, n=3, forms=1, ways=2, io=1, idx=3)), dict(time=600, args=dict(lists=2, modes=1, lo=3, n=3, forms=2)))
u("filter_pair", "C23", "h_filter", "h_filter", "two lines, each of any record, as is or with digit 0, 7, 23, 24 or 31 changed to 0 or f; -v, with and without -s; index unsorted, sorted or mixed; IDs arbitrary or sharing 8 digits",
  dict(time=100, args=dict(lists=1, modes=1, mode0=1, lo=2, n=2, forms=1, io=1, idx=3, vonly=1, both=1)), dict(time=600, args=dict(lists=3, modes=2, mode0=1, lo=2, n=2, forms=1, io=2, idx=3, vonly=1, both=1)))
u("filter_bad", "C23", "h_filter", "h_filter_bad", "an ID with one arbitrary character, short, with a broken prefix, lines of 4094..8192 characters", dict(time=60))
u("cgi", "C25 C04", "h_cgi", "h_cgi", "seven lists of up to four objects and one of another content type, silo.max_size 1900 or 9000, IDs arbitrary or sharing 8 or 24 digits, first and last byte of each object arbitrary; every record (also warcinfo and continuations) asked for in four forms, with another digit or short; ten Accept-Encoding values",
  dict(time=100, args=dict(lists=1, modes=1)), dict(time=600))
u("cgi_path", "C25 C28", "h_cgi", "h_cgi_path", "PATH_INFO of an object with one arbitrary character, an extra one, or 0..n arbitrary characters", dict(time=60), dict(time=300, args=dict(n=5)))
u("cgi_env", "C25", "h_cgi", "h_cgi_env", "seven values of GATEWAY_INTERFACE and REQUEST_METHOD each, or one arbitrary character, PATH_INFO present or not, arguments", dict(time=60))
u("rebuild", "C27 C04", "h_rebuild", "h_rebuild", "seven lists of up to four objects, first and last byte of each arbitrary, two sizes of silos, with and without compressible bodies, both endings of the compressor before and in rebuild, buffers of 1024, 1600 and 65536 bytes; all silos, any one, or a rebuilt one again",
  dict(time=100, args=dict(lists=4)), dict(time=600))
u("rebuild_big", "C27", "h_rebuild", "h_rebuild_big", "bodies of 1..mul times the size decompressed at once plus -9, -1, 0, 1, 9; incompressible ones after another object of 1..pre times step bytes (ends of members around what is read at once); first and last byte arbitrary", dict(time=100), dict(time=600, args=dict(mul=6, pre=500)))
u("rebuild_huge", "C27", "h_rebuild", "h_rebuild_huge", "incompressible bodies of `lens` lengths 17000..200000, pages of 4096 bytes, first and last byte arbitrary", dict(time=100, args=dict(lens=5)))
u("rebuild_many", "C27", "h_rebuild", "h_rebuild_many", "14 silos, 9 to 12 files open at most", dict(time=60))
u("rebuild_old", "C27", "h_rebuild", "h_rebuild_old", "silos with one or two records of the old form (WARC-record-digest, another ID) among one to three, bodies of 15 lengths 1..140000 around the sizes of the buffers, pages of 64, 256 and 4096 bytes, compressible or not; first and last byte arbitrary", dict(time=150))
u("spell", "C28 C29 C13 C14 C02", "h_opt", "h_spell", "archives with small, segmented and metadata objects, IDs unrelated or sharing 24 digits; any ID in eight spellings (prefix in three cases or none, digits in either case) followed by any other: get, get -n, as reference, as forced ID, not in the archive, warcinfo and continuation IDs; metadata of 70 and 2500 bytes with an arbitrary byte",
  dict(time=100, args=dict(second=3)), dict(time=600, args=dict(lists=2)))
u("store_opt", "C29 C04 C14 C01", "h_opt", "h_store_opt", "resource or metadata of 80 or 2500 bytes, any two of -t (9 forms), -m (8), -r (12), -i (10) and input (8) varied", dict(time=150), dict(time=300))
u("get_fault", "C11 C01 C12", "h_opt", "h_get_fault", "get and get -z of a small and a segmented object, to a file or standard output; each of the first 40 file operations fails or is done in part", dict(time=60), dict(time=200, args=dict(last=80)))
u("steve", "C24", "h_steve", "h_steve", "server: up to `ops` of {request for one of four objects, empty request, one of two objects sent} in any order, then metadata or none; objects cut in frames in three ways with any request between two frames; schedules of server and children: two standing orders, devs deviations anywhere; full or archive-length IDs; first byte of each object arbitrary",
  dict(time=120, args=dict(ops=1, devs=2)), dict(time=800, args=dict(ops=2, devs=1)))
u("steve_seq", "C24", "h_steve", "h_steve", "server: sequences of exactly lo operations as in steve, objects in one frame, devs deviations from the standing schedules", dict(time=120, args=dict(ops=3, lo=3, splits=1, fulls=1, devs=0)), dict(time=600, args=dict(ops=3, lo=3, splits=1, fulls=1, devs=1)))
u("steve_two", "C24", "h_steve", "h_steve", "server: sequences of two operations, one deviation from the standing schedules", dict(time=120, args=dict(ops=2, lo=2, splits=1, fulls=1, devs=1)), dict(time=600, args=dict(ops=2, lo=2, splits=1, fulls=1, devs=2)))
u("steve_eof", "C24", "h_steve", "h_steve_eof", "server: as steve with one operation, the connection ends after any byte", dict(time=250, args=dict(ops=1, fulls=1, splits=2, mids=2)), dict(time=800, args=dict(ops=1)))
_t = "five directory trees of 0..3 files (sub-directories, names with spaces, empty and equal files, a link), each file missing, there already, or changed since the listing (same or another length), listing there or not; server answering singly or in batches, prompt or lagging; three standing schedules, devs deviations anywhere"
u("stow", "C24", "h_stow", "h_stow", "client: " + _t, dict(time=250, args=dict(layouts=1, splits=0, devs=1, ids=1)), dict(time=800, args=dict(layouts=1, splits=0, devs=2, ids=2)))
u("stow_text", "C24", "h_stow", "h_stow", "client: the same trees and one whose listing has directories for default (/set type=dir, later changed to files and back), listing in three layouts (continued lines, order of keywords) and arriving in two pieces cut anywhere", dict(time=250, args=dict(devs=0, prefers=1, lags=1, ids=1, states=2, trees=6)), dict(time=800, args=dict(devs=0, prefers=1, lags=1, trees=6)))
u("stow_reads", "C24", "h_stow", "h_stow", "client: every read(2) returns at most 1 or 7 bytes; 128- and 256-bit IDs", dict(time=120, args=dict(layouts=1, splits=0, devs=0, reads=3, prefers=1)), dict(time=600, args=dict(layouts=3, splits=0, devs=0, reads=3)))
u("stow_two", "C24", "h_stow", "h_stow_two", "client: two targets in one run, each with a tree as above", dict(time=120, args=dict(layouts=1, splits=0, devs=0, ids=1, trees=3, prefers=2)), dict(time=600, args=dict(layouts=1, splits=0, devs=0, ids=1, trees=4)))
u("stow_dead", "C24", "h_stow", "h_stow_dead", "client: the server goes away, with or without an error, at any of the first `polls` steps", dict(time=120, args=dict(layouts=1, splits=0, devs=0, ids=1, trees=3)), dict(time=600, args=dict(layouts=1, splits=0, devs=1, ids=1, polls=60)))
u("stow_child", "C24", "h_stow", "h_stow_child", "client: arguments and descriptors of the server and of mtree, two targets", dict(time=60, args=dict(layouts=1, trees=1)))
