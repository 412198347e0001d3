"""The solver queries of every property."""
SPECS = {}
SCX = lambda *l: [tuple(x.split(':')) for x in l]
FS = lambda n: ["--max-field-sensitivity-array-size", str(n)]

def prop(pid, *queries, **kw):
    SPECS[pid] = dict(queries=list(queries), **kw)

def q(name, file, unwind, **kw):
    d = dict(name=name, file=file, unwind=unwind)
    d.update(kw)
    return d

prop("C01",
     q("full", "c01_crc.c", 10, defs=["N=2"], reach=["full length"], bounds="every buffer of 0..2 bytes", thorough=dict(defs=["N=3"], timeout=600)),
     q("long", "c01_crc.c", 26, defs=["N=24", "ONE"], reach=["full length"], bounds="every length 1..24, one arbitrary byte near the end, the others fixed", thorough=dict(defs=["N=70", "ONE"], unwind=72, timeout=600)),
     )

MB = ["VF_MEMCPY_BYTES"]
prop("C02",
     q("md5-chunks", "c02_hash.c", 330, solver="z3", defs=MB + ["MODE=1", "L=70", "CUTS={0,1},{1,64},{3,63},{64,64},{64,70},{55,56}"], reach=["end"],
       bounds="every 70 byte message (all bytes arbitrary), six ways of cutting it into three updates",
       thorough=dict(defs=MB + ["MODE=1", "L=130", "CUTS={0,1},{1,64},{3,63},{64,64},{64,70},{55,56},{0,0},{64,128},{65,129},{63,128},{1,130},{128,129},{10,20},{56,120}"], timeout=700)),
     q("md5-std", "c02_hash.c", 330, defs=MB + ["MODE=2", "L=70", "LENS=0,1,55,56,64", "MASK=15"], reach=["end"],
       bounds="lengths 0,1,55,56,64; one byte with 4 arbitrary bits, the others fixed", thorough=dict(defs=MB + ["MODE=2", "L=200", "LENS=0,1,55,56,57,63,64,65,119,120,128,200", "MASK=255"], timeout=800)),
     q("sha1-a", "c02_hash.c", 330, defs=MB + ["SHA", "MODE=2", "L=70", "LENS=0,55,56,70", "CUTS={1,64},{3,63}", "MASK=3"], reach=["end"],
       bounds="lengths 0,55,56,70, one byte with 2 arbitrary bits; whole and cut into three updates, against FIPS 180"),
     q("sha1-b", "c02_hash.c", 330, defs=MB + ["SHA", "MODE=2", "L=130", "LENS=64,130", "CUTS={64,128},{65,129}", "MASK=3"], reach=["end"],
       bounds="lengths 64 and 130, one byte with 2 arbitrary bits; whole and cut into three updates, against FIPS 180", thorough=dict(defs=MB + ["SHA", "MODE=2", "L=130", "LENS=64,119,120,130", "CUTS={64,128},{65,129},{1,64},{0,64},{10,120}", "MASK=255"], timeout=800)),
     )
prop("C03",
     q("schedule", "c03_rc4.c", 260, defs=["MODE=2", "N=8", 'KEYS="Wiki","K"'], flags=FS(256), reach=["end"], bounds="keys of 1 and 4 bytes, every 8 byte message",
       thorough=dict(defs=["MODE=2", "N=16", 'KEYS="K","Key","Wiki","Secret","0123456789abcdef","a\\xff\\x80","0123456789012345678901234567890123456789012345678901234567890123456789"'], timeout=800)),
     q("any-y", "c03_rc4.c", 260, defs=["MODE=1", "ANYY", "N=2", "CUT=1"], reach=["end"], bounds="2 arbitrary bytes, any y index, x index at the wrap-around, in one piece and in two"),
     q("stream", "c03_rc4.c", 270, defs=["MODE=1", "N=261", "CUT=100"], flags=FS(300), reach=["end"], bounds="261 stream bytes (x index wraps), cut at 100; 4 data bytes arbitrary"),
     )
prop("C04",
     q("roundtrip", "c04_base64.c", 12, defs=["MODE=1", "N=6"], reach=["end"], bounds="every byte string of 0..6 bytes", thorough=dict(defs=["MODE=1", "N=12"], unwind=24, timeout=600)),
     q("hostile", "c04_base64.c", 12, defs=["MODE=2", "N=9"], reach=["padded", "plain"], bounds="every text of 0..9 bytes", thorough=dict(defs=["MODE=2", "N=14"], unwind=20, timeout=600)),
     )
prop("C05",
     q("roundtrip", "c05_percent.c", 20, defs=["MODE=1", "RAW", "N=3", "ONLYN"], reach=["end"], bounds="every 3 byte string, encode_percent / decode_percent", thorough=dict(defs=["MODE=1", "RAW", "N=4"], timeout=700)),
     q("roundtrip-url", "c05_percent.c", 20, defs=["MODE=1", "N=2"], reach=["end"], bounds="every string of 0..2 bytes, url_encode / url_decode"),
     q("decode", "c05_percent.c", 20, defs=["MODE=2", "N=5"], reach=["one escape", "incomplete"], bounds="every text of 0..5 bytes", thorough=dict(defs=["MODE=2", "N=7"], timeout=700)),
     )
OB = lambda n: ["--object-bits", str(n)]
prop("C11",
     q("array", "c11_array.c", 8, defs=["CAP=1", "IDX=2"], flags=OB(11), reach=["end"], bounds="array list of capacity 1: every three sets at positions 0..2 with arbitrary values, every get at 0..3",
       thorough=dict(defs=["CAP=2", "IDX=3"], timeout=300)),
     q("linked-add", "c11_linked.c", 14, defs=["K=4", "INIT=3", "ONLY=0x47"], flags=OB(10), reach=["end"], bounds="appends and removal by position, from every well formed list of 0..3 arbitrary values, positions 0..3"),
     q("linked-take", "c11_linked.c", 14, defs=["K=4", "INIT=3", "ONLY=0x3b8"], flags=OB(10), reach=["end"], bounds="pops, removal by value, clear, get, peek, iterate, from every list of 0..3 arbitrary values",
       thorough=dict(defs=["K=4", "INIT=3", "ONLY=0x3b8", "PAIR=1"], timeout=600)),
     q("linked-move", "c11_linked.c", 14, defs=["K=4", "INIT=3", "ONLY=0x400"], flags=OB(10), reach=["end"], bounds="a popped node appended again, from every list of 0..3 arbitrary values",
       thorough=dict(defs=["K=5", "INIT=3", "ONLY=0x400", "PAIR=0"], timeout=600)),
     )
RSORT = dict(replace_calls=["sort_quicksort:vf_sorted"], replace_proto="void @(void **s, size_t b, size_t e, int (*c)(void *, void *))", replace_pre="int vf_cmp(void *, void *); int (*vf_keep)(void *, void *) = vf_cmp;")
prop("C14",
     q("step", "c14_sort.c", 9, defs=["MODE=1", "PAD=0", "LO=0", "N=4"], reach=["end"], bounds="every sequence of 0..4 arbitrary keys; the recursive calls by induction on the size", thorough=dict(defs=["MODE=1", "PAD=0", "LO=0", "N=5"], timeout=700), **RSORT),
     q("range", "c14_sort.c", 9, defs=["MODE=1", "PAD=1", "LO=3", "N=3"], reach=["end"], bounds="every 3 keys in the middle of a larger sequence; recursion by induction", thorough=dict(defs=["MODE=1", "PAD=2", "LO=4", "N=4"], timeout=700), **RSORT),
     q("list", "c14_sort.c", 9, defs=["MODE=2", "LO=0", "N=3"], unwindset=["sort_quicksort:3"], reach=["end"], bounds="linked lists of 0..3 arbitrary keys, recursion unrolled"),
     outside="Longer sequences, and comparison functions that are not a total preorder, are outside.")
prop("C15",
     q("history", "c15_queue.c", 10, defs=['SCRIPTS="+-","-+-","+++---","++-+--","+-+-","--+","++--"'], reach=["end"], bounds="seven push/pop histories of up to six operations, every 8 bit key",
       thorough=dict(defs=['SCRIPTS="++++----","+++-+--+--","-++-++---","++--++--"'], unwind=14, timeout=600)),
     )
MAPU = ["_set_value_hash_map:2", "_resize_hash_map:1", "vf_zero.0:33", "_resize_hash_map.0:17", "get_next_iterator_hash_map.0:18", "delete_hash_map.0:18", "get_next_element_iterator_hash_map.0:18"]
def mapq(name, *defs, **kw):
    return q(name, "c12_map.c", kw.pop("unwind", 5), defs=["VF_MODEL_MALLOC"] + list(defs), unwindset=MAPU + kw.pop("u", []), reach=["end"], **kw)
TEXTS = 'PATS={0,1,0,2},{3,3,1,2},{0,1,2,3}'
prop("C12",
     mapq("integer", "MODE=1", "K=3", "SIZE=4", "PATS={0,1,2},{0,1,0},{0,0,2}", bounds="three sets of arbitrary 64 bit keys (all distinct; first repeated last; first repeated at once), then one arbitrary key read",
          thorough=dict(defs=["VF_MODEL_MALLOC", "MODE=1", "K=4", "SIZE=8", "PATS={0,1,2,3},{0,1,0,1},{0,1,2,1}"], timeout=700)),
     mapq("growth", "MODE=1", "K=2", "SIZE=2", "RESIZE=1", "PATS={0,1},{0,0}", bounds="growth between two sets of arbitrary 64 bit keys, then one arbitrary key read",
          thorough=dict(defs=["VF_MODEL_MALLOC", "MODE=1", "K=3", "SIZE=2", "RESIZE=1", "PATS={0,1,2},{0,1,0},{0,1,1},{0,0,2},{0,0,0}"], timeout=800)),
     mapq("growth-collision", "MODE=4", "K=4", "SIZE=3", "PATS={1,4,7,2},{2,5,0,8},{0,12,24,36},{3,1,15,14}", u=["pattern.1:41", "pattern.2:41"], flags=OB(11), bounds="four sets of four given keys that share slots, with growth"),
     mapq("iterate", "MODE=1", "K=3", "SIZE=4", "ITER", "PATS={0,1,0},{0,1,2}", bounds="iteration after three sets of arbitrary 64 bit keys"),
     mapq("text", "MODE=2", "K=2", "SIZE=4", "PATS={0,1}", bounds="two different texts of arbitrary 64 bit hashes (also equal), get and iterate"),
     mapq("text-growth", "MODE=3", "K=4", "SIZE=2", TEXTS, bounds="four sets of text keys of 0..2 letters through the real hash, with growth; concrete texts"),
     )
prop("C13",
     mapq("integer", "SORTED", "MODE=1", "K=3", "SIZE=4", "PATS={0,1,2},{0,1,0}", bounds="three sets of arbitrary 64 bit keys, then one arbitrary key read"),
     mapq("iterate", "SORTED", "MODE=1", "K=3", "SIZE=4", "ITER", "PATS={0,1,0}", bounds="iteration after three sets of arbitrary 64 bit keys, the first repeated",
          thorough=dict(defs=["VF_MODEL_MALLOC", "SORTED", "MODE=1", "K=3", "SIZE=4", "ITER", "PATS={0,1,0},{0,1,2},{0,0,2},{0,1,1}"], timeout=600)),
     mapq("text", "SORTED", "MODE=2", "K=2", "SIZE=4", "PATS={0,1}", bounds="two different texts of arbitrary 64 bit hashes, get and iterate"),
     mapq("text-growth", "SORTED", "MODE=3", "K=4", "SIZE=2", TEXTS, bounds="four sets of text keys through the real hash, with growth; concrete texts"),
     )
BITS = "viriatum_commons/stream/bit_stream.h:BIT_STREAM_BUFFER_SIZE".split(":")
MEMS = "viriatum_commons/stream/memory_stream.h:SIZE_MEMORY_STREAM".split(":")
SC = lambda *l: [tuple(k) + (v,) for k, v in l]
prop("C09",
     q("history", "c09_bits.c", 40, defs=MB + ["NB=20", 'HIST={"cgmpadh","cgmpadh"},{"hhhhhhhh","hhhhB08hB16hhhhB30fhhB07bc"},{"pppp","ppB05eppB40hC0048pp"},{"m","mcB04dpB20mhhB20d"}'], scale=SC((BITS, 3), (MEMS, 4)), flags=OB(10), reach=["end"],
       bounds="four histories of writes and reads of 1..16 bits with arbitrary values and moves back, also past the end; bit buffer scaled to 3 bytes"),
     q("far", "c09_bits.c", 280, thorough_only=True, timeout=600, defs=MB + ["NB=280", 'HIST={"*269hh","*268hC2088cg*005h"}'], scale=SC((BITS, 300)), flags=OB(12), reach=["end"], bounds="a move back over 261 bytes inside one buffer of 300"),
     )
prop("C10",
     q("history", "c10_memory.c", 26, defs=MB + ['HIST="w3s0r2r2r2","w3s1w1s0r4","w9s0r9","w2w3s4w6s0rb","s6r1","w2s9r2","w2s6w1s0r8","w3o0r1w1s0r1","w0r0"'], scale=SC((MEMS, 4)), flags=OB(10), reach=["end"],
       bounds="nine histories of writes, reads, seeks and reopening with arbitrary data; growth step scaled to 4 bytes",
       thorough=dict(defs=MB + ['HIST="w3s0r2r2r2","w3s1w1s0r4","w9s0r9","w2w3s4w6s0rb","s6r1","w2s9r2","w2s6w1s0r8","w3o0r1w1s0r1","w0r0","w1w1w1w1w1s2w1s0r9","w4s2w4s0r8","w5s5r1w5s3r9","s8w8s0rg","w7s1w3r1s0rc","s4w1s8w1s0ra"'], timeout=600)),
     )
prop("C16",
     q("history", "c16_buffers.c", 20, defs=MB + ['SSCRIPTS="j","20j1j","s2Sj","oejtTj","e0j"', 'LSCRIPTS="j","20j1j","oO2j","0j"'], flags=OB(10), reach=["end"],
       bounds="five string buffer and four linked buffer histories of up to 6 operations with arbitrary texts",
       thorough=dict(defs=MB + ['SSCRIPTS="j","20j1j","s2Sj","oejtTj","e0j","012j","2s1ej","ttj","oooj"', 'LSCRIPTS="j","20j1j","oO2j","0j","012j","OoOj","222j"'], timeout=600)),
     )
HUF = "viriatum_commons/compression/huffman.h:HUFFMAN_SYMBOL_SIZE".split(":")
HUFB = "viriatum_commons/compression/huffman.h:HUFFMAN_BUFFER_SIZE".split(":")
HUFC = "viriatum_commons/compression/huffman.h:HUFFMAN_CODE_SIZE".split(":")
RHUF = dict(replace_calls=["calc_freqs_huffman:vf_freqs"], replace_proto="void @(struct huffman_t *h, struct stream_t *s)",
            replace_pre="struct huffman_t; struct stream_t; int _compare_huffman(void *, void *);" + "".join("%s %s(struct stream_t *%s); %s (*vk%d)(struct stream_t *%s) = %s;" % (t, n, a, t, i, a, n) for i, (t, n, a) in enumerate([("void", "f_open", ""), ("void", "f_close", ""), ("size_t", "f_read", ", unsigned char *, size_t"), ("size_t", "f_write", ", unsigned char *, size_t")])))
def hufq(name, mode, s, *defs, **kw):
    u = kw.pop("u", [])
    return q(name, "c08_huffman.c", 16, defs=["VF_MODEL_MALLOC", "MODE=%d" % mode, "S=%d" % s] + list(defs), flags=OB(11), reach=["end"],
             unwindset=["allocate_tree_huffman:%d" % (s + 1), "_fill_prefix_huffman:%d" % s, "delete_tree_huffman:%d" % (s + 1)] + u, **kw)
HUFS = lambda s, *x: SC((HUF, s), (HUFB, 1), *x)
prop("C08",
     hufq("codes", 1, 4, "CAP=4", "N=2", "BITMODEL=3", "FMASK=255", "USED=0,4,5,9,7,11,14,15", scale=HUFS(4), u=["generate_table_huffman.1:1"], bounds="four symbols of which eight sets occur, every 8 bit frequency: codes are prefix free, cover exactly the symbols, and more frequent symbols have no longer code",
          thorough=dict(defs=["VF_MODEL_MALLOC", "MODE=1", "S=5", "CAP=4", "N=2", "BITMODEL=4", "FMASK=65535", "USED=31,15,1,2,6"], scale=HUFS(5), unwindset=["allocate_tree_huffman:6", "delete_tree_huffman:6", "generate_table_huffman.1:1", "_fill_prefix_huffman:4"], timeout=800), **RHUF),
     hufq("long", 1, 4, "CAP=4", "N=2", "BITMODEL=3", "FMASK=255", "USED=15", "LONG=1,2,4,8", scale=HUFS(4, (HUFC, 2)), u=["generate_table_huffman.1:6"], bounds="codes longer than the limit (scaled to 2 bits) are avoided", **RHUF),
     hufq("round-trip", 2, 4, "CAP=4", "N=3", "BITMODEL=3", "FREQS={1,2,4,8},{1,1,1,1},{0,0,3,0},{0,0,0,0},{3,0,1,0}", scale=HUFS(4), u=["round_trip.0:40"], bounds="every 3 byte text over the symbols of five frequency tables, decoded by tree and by table; the bit stream is the one C09 establishes",
          thorough=dict(defs=["VF_MODEL_MALLOC", "MODE=2", "S=4", "CAP=8", "N=6", "BITMODEL=3", "FREQS={1,2,4,8},{1,1,1,1},{0,0,3,0},{0,0,0,0},{3,0,1,0},{1,2,3,0}"], unwind=28, unwindset=["round_trip.0:70", "allocate_tree_huffman:5", "_fill_prefix_huffman:4", "delete_tree_huffman:5"], timeout=800), **RHUF),
     q("count", "c08_huffman.c", 10, defs=["MODE=3", "S=4", "N=4", "CAP=4", "BITMODEL=3"], scale=HUFS(4), reach=["end"], bounds="every text of 0..4 bytes"),
     outside="More than five distinct symbols and longer texts are outside (table sizes and buffers are scaled down).")
RURL = dict(replace_calls=["parse_url:vf_parse"], replace_proto="unsigned int @(char *url, size_t url_size, struct url_t *u)", replace_pre="struct url_t;")
prop("C07",
     q("components", "c07_url.c", 40, defs=["VF_MODEL_MALLOC", "VF_MEMCPY_BYTES", "MODE=1", "SHAPES={2,99,99,2,99,1,99,99},{1,1,1,1,2,1,1,1},{0,99,99,0,99,0,1,99}"], flags=OB(10), reach=["end"],
       bounds="six shapes of URL with components of 0..2 arbitrary bytes and ports of up to 5 arbitrary digits", thorough=dict(defs=["VF_MODEL_MALLOC", "VF_MEMCPY_BYTES", "MODE=1", "SHAPES={4,99,99,4,99,3,99,99},{3,4,4,3,4,4,4,4},{1,1,0,1,9,0,0,0},{1,99,99,1,3,1,99,2},{2,3,0,4,1,9,9,99},{4,99,99,9,5,8,0,3}"], unwind=64, timeout=600)),
     q("components-2", "c07_url.c", 40, defs=["VF_MODEL_MALLOC", "VF_MEMCPY_BYTES", "MODE=1", "SHAPES={1,1,0,1,5,0,0,0},{1,99,99,1,3,1,99,2},{1,0,1,2,99,1,1,2}"], flags=OB(10), reach=["end"], bounds="three more shapes"),
     q("any-text", "c07_url.c", 16, defs=["VF_MODEL_MALLOC", "VF_MEMCPY_BYTES", "MODE=2", "N=6", 'PREFIX=""'], reach=["rejected"], bounds="every text of 6 bytes", thorough=dict(defs=["VF_MODEL_MALLOC", "VF_MEMCPY_BYTES", "MODE=2", "N=10", 'PREFIX=""'], timeout=600)),
     q("any-rest", "c07_url.c", 20, defs=["VF_MODEL_MALLOC", "VF_MEMCPY_BYTES", "MODE=2", "N=5", 'PREFIX="a://"'], reach=["rejected", "accepted"], bounds="every text of 5 bytes after a://", thorough=dict(defs=["VF_MODEL_MALLOC", "VF_MEMCPY_BYTES", "MODE=2", "N=9", 'PREFIX="a://"'], timeout=600)),
     *[q("copy-%d" % f, "c07_url.c", 20, defs=["VF_MODEL_MALLOC", "VF_MEMCPY_WITNESS", "WITNESS=%d" % (f % 3), "MODE=3", "FIELD=%d" % f, "MAX=1200"], reach=["end"], bounds="fixed-size copy of component %d of every size up to 1180 bytes; what parse_url finds is its contract" % f, **RURL)
       for f in (0, 1, 2, 3, 5, 6, 7)],
     q("port", "c07_url.c", 300, defs=["VF_MODEL_MALLOC", "VF_MEMCPY_BYTES", "MODE=4", "MAX=300"], flags=FS(400), reach=["end"], bounds="ports of 127, 128 and 200 digits are accepted or rejected without overflow"),
     )
NOCHK = ["--no-pointer-check", "--no-bounds-check"]
prop("C23",
     q("new", "c23_parser.c", 12, defs=["MODE=0", "K=1"], reach=["end"], bounds="new request and response parsers"),
     q("step", "c23_parser.c", 3, defs=["MODE=1", "K=2"], unwindset=["vf_fill.0:9", "vf_heap.0:9"], timeout=300, reach=["error", "all consumed", "stops at the end of a message"],
       bounds="from every valid parser state, every 1..2 bytes of data: safe, and a valid state again (so, by induction, any sequence of pieces)",
       thorough=dict(unwind=4, defs=["MODE=1", "K=3"], timeout=800)),
     outside="The invariant of the valid states is the harness's; marks are those of data that stays where it is.")
prop("C24",
     *[q("cut-%d" % lo, "c23_parser.c", 3, defs=["MODE=2", "K=2", "CUT=1", "LOGN=4", "LO=%d" % lo, "HI=%d" % hi], unwindset=["vf_fill.0:9", "vf_heap.0:9", "harness.0:10", "feed.0:10"], flags=NOCHK, slice=True, timeout=400,
         reach=["something reported"], bounds="from every valid parser state numbered %d..%d, every two bytes, at once and one by one" % (lo, hi))
       for lo, hi in ((1, 18), (19, 29), (30, 40), (41, 41), (42, 45), (46, 55))],
     outside="One step of the induction: two bytes at once against one by one; callbacks are compared by kind, place and size.")
prop("C25",
     *[q("frame-%d" % m, "c25_frame.c", 300, defs=["MSET=%d" % m], flags=FS(400) + NOCHK, timeout=200, reach=["end"], bounds="message set %d of c25_msgs.h: field names, values, targets and bodies of arbitrary bytes of their class" % m) for m in range(1, 9)],
     outside="Messages are the shapes listed in c25_msgs.h; control characters of the framing are fixed, the payload is arbitrary.")
prop("C28",
     q("numbers", "c28_range.c", 14, defs=["MODE=1", 'PREFIX="bytes="', 'REST=""', "SHAPES={1,1},{2,0},{0,2},{2,2},{0,0}"], reach=["end"], bounds="numbers of 0..2 arbitrary digits, files of every size",
       thorough=dict(defs=["MODE=1", 'PREFIX="bytes="', 'REST=""', "SHAPES={1,1},{2,0},{0,2},{2,2},{0,0},{3,3},{3,0},{0,3},{1,3}"], unwind=16, timeout=600)),
     q("list", "c28_range.c", 14, defs=["MODE=1", 'PREFIX=""', 'REST=",3-4"', "SHAPES={1,1},{2,0}"], reach=["end"], bounds="the first of two ranges, without the unit"),
     q("huge", "c28_range.c", 30, defs=["MODE=1", 'PREFIX=""', 'REST=",3-4"', "SHAPES={20,0}"], reach=["end"], bounds="a first byte of 20 digits, the last arbitrary"),
     q("huge-last", "c28_range.c", 30, defs=["MODE=1", 'PREFIX="x="', 'REST=""', "SHAPES={1,20},{0,21},{1,19}"], reach=["end"], bounds="last bytes and suffixes of 19 to 21 digits"),
     q("any-text", "c28_range.c", 10, defs=["MODE=2", "N=6"], reach=["accepted", "refused"], bounds="every text of up to 6 bytes", thorough=dict(defs=["MODE=2", "N=10"], unwind=14, timeout=600)),
     outside="Only the first range of a list is served, by design of the code; how the limits reach the response is C31.")
def pathq(name, n, prefix, *defs, **kw):
    size, chk = kw.pop("size", 14), kw.pop("chk", NOCHK)
    return q(name, "c30_path.c", kw.pop("unwind", 12), defs=["VF_MODEL_FILE", "VF_MEMCPY_BYTES", "N=%d" % n, 'VF_WWW="/w"', 'PREFIX="%s"' % prefix] + list(defs), flags=chk, models=["vf_file.c"],
             scale=SCX("viriatum_commons/global/definitions.h:VIRIATUM_MAX_PATH_SIZE:%d" % size, "viriatum_commons/global/definitions.h:VIRIATUM_MAX_URL_SIZE:24"), **kw)
AF = ["a file", "no file"]
prop("C30",
     pathq("any", 3, "/", reach=AF, bounds="every target of / and 3 bytes, contents folder", thorough=dict(unwind=16, timeout=800, defs=["VF_MODEL_FILE", "VF_MEMCPY_BYTES", "N=6", 'VF_WWW="/w"', 'PREFIX="/"'])),
     pathq("encoded", 3, "/%2e", reach=AF, bounds="every target of /%2e and 3 bytes", thorough=dict(unwind=18, timeout=800, defs=["VF_MODEL_FILE", "VF_MEMCPY_BYTES", "N=6", 'VF_WWW="/w"', 'PREFIX="/%2e"'])),
     pathq("inner", 3, "/.", 'SUFFIX="/x"', reach=AF, bounds="every target of /., 3 bytes and /x"),
     pathq("url", 3, "/", "URL", reach=AF, bounds="every whole target (with queries) of / and 3 bytes"),
     pathq("location", 3, "/l", "LOC", "OFF=2", 'BASE="/b"', reach=AF, bounds="every target of /l and 3 bytes, location of /l with its own folder"),
     pathq("location-slash", 3, "/l", "LOC", "OFF=1", 'BASE="b/"', reach=AF, bounds="every target of /l and 3 bytes, location of / with a folder that ends in a slash"),
     pathq("memory", 2, "/aaa", "SAFE", unwind=15, size=10, chk=[], reach=AF, bounds="every target of /aaa and 2 bytes, memory checks, buffers of 10 bytes (scaled)"),
     pathq("memory-long", 2, "/aaaaaaa", "SAFE", "LOC", "OFF=2", "TOOLONG", 'BASE="/b"', unwind=15, size=10, chk=[], reach=["no file"], bounds="targets that do not fit the path buffers (scaled to 10 bytes)"),
     outside="Symbolic links and the index files of folders are outside; what the location matched is C32.")
def pwq(name, n, unwind, *defs, **kw):
    base = ["VF_MODEL_FILE", "VF_MODEL_MALLOC", "VF_MEMCPY_BYTES"] + list(defs)
    th = kw.pop("th", None)
    if th: kw["thorough"] = dict(defs=base + ["N=%d" % th[0]], unwind=th[1], timeout=800)
    return q(name, "c18_passwd.c", unwind, defs=base + ["N=%d" % n], models=["vf_file.c", "vf_map.c"], **kw)
U127 = "u" * 127
prop("C18",
     pwq("any", 4, 9, flags=NOCHK, reach=["two users"], bounds="every file of 4 bytes", th=(6, 11)),
     pwq("after", 2, 12, 'PREFIX="a:b\\n"', 'SUFFIX=":c"', flags=NOCHK, reach=["two users"], bounds="every file of a:b, newline, 2 bytes and :c", th=(3, 14)),
     pwq("memory", 3, 10, "SAFE", flags=OB(10), reach=["end"], bounds="every file of 3 bytes, memory checks with exactly sized objects", th=(4, 11)),
     pwq("longest", 1, 160, "VF_KEY=140", "VF_PAIRS=3", "LONG=1", 'PREFIX="%s:p\\nb:"' % U127, flags=OB(12) + FS(400), reach=["end"], bounds="a user of 127 bytes, then another with an arbitrary password byte"),
     pwq("too-long", 1, 160, "VF_KEY=140", "VF_PAIRS=3", "LONG=0", 'PREFIX="%su:p\\nb:"' % U127, flags=OB(12) + FS(400), reach=["end"], bounds="a user of 128 bytes, then another with an arbitrary password byte"),
     outside="The map that holds the pairs is the one C12 establishes, the file reading the one C41 does.")
def authq(name, mode, n, unwind, *defs, **kw):
    base = ["VF_MODEL_MALLOC", "VF_MEMCPY_BYTES", "MODE=%d" % mode] + list(defs)
    th = kw.pop("th", None)
    if th: kw["thorough"] = dict(defs=base + ["N=%d" % th[0]], unwind=th[1], timeout=800)
    return q(name, "c29_auth.c", unwind, defs=base + ["N=%d" % n], models=["vf_map.c"], **kw)
PW3, BASIC = 'USERS="u","p","","","uu",""', 'SCHEME="Basic "'
LONGA = lambda n, plain, **kw: authq(n, 1, 0, 300, BASIC, "ANYPW", "VF_KEY=140", 'PLAIN="%s"' % plain, 'USERS="%s",any' % U127, flags=OB(12) + FS(400), **kw)
def fileq(name, mode, unwind, *defs, **kw):
    base = ["VF_MODEL_FILE", "VF_MODEL_MALLOC", "VF_MEMCPY_BYTES", 'VF_WWW="/w"', "MODE=%d" % mode] + list(defs)
    th = kw.pop("th", None)
    if th: kw["thorough"] = dict(defs=[d for d in base if d.split("=")[0] not in [t.split("=")[0] for t in th[0]]] + th[0], unwind=th[1], timeout=800)
    return q(name, "c31_file.c", unwind, defs=base, models=["vf_file.c"], flags=OB(12) + FS(300), scale=SCX(*["viriatum_commons/global/definitions.h:VIRIATUM_" + m for m in ("MAX_PATH_SIZE:40", "MAX_URL_SIZE:40", "HTTP_SIZE:200")], "viriatum/handlers/handler_file.h:FILE_BUFFER_SIZE_HANDLER_FILE:3"), **kw)
def pickq(name, bits, mask, mimes, at, *defs, **kw):
    return fileq(name, 2, 100, "SIZE=1234567", "FIRST=5", "LAST=999", 'RANGETEXT="5-999/1234567"', "MIMES=" + mimes, "BITS=0x%x" % bits, "MASK=0x%x" % mask, "AT=%d" % at, *defs, **kw)
PLAIN = '"text/plain"'
PROTECTED = pickq("protected", 0x21, 0x44, "NULL", 0, reach=["401", "200"], bounds="a protected file, with and without credentials, granted or not")
prop("C31",
     fileq("body", 1, 20, "SIZE=5", reach=["complete", "went away"], bounds="every range of every file of up to 5 arbitrary bytes in pieces of 3, files gone or shorter than announced, clients that go away", th=(["SIZE=8"], 20)),
     pickq("plain", 1, 0x108, PLAIN, 0, reach=["200", "206"], bounds="an open file, with and without a range (good or not)"),
     pickq("conditional", 0x81, 0x308, PLAIN, 0, reach=["200", "206", "304"], bounds="the tag of the client matching or not, with and without a range"),
     pickq("any-tag", 0x81, 0, PLAIN, 0, "ANYTAG", reach=["200", "304"], bounds="a tag with any one byte changed to any value"),
     pickq("folder", 3, 0x74, PLAIN, 0, reach=["307", "401", "list"], bounds="folders with and without slash, open and protected"),
     pickq("missing", 0, 0x64, PLAIN, 0, reach=["404"], bounds="no such file, open and protected"),
     pickq("guarded", 0xa9, 0x344, "NULL", 9, reach=["200", "206", "304", "401"], bounds="protected files with ranges and tags"),
     pickq("longest", 0, 3, "NULL", 0, "LONGEST", reach=["404", "200", "307"], bounds="the longest paths and targets there may be (scaled to 40 bytes)"),
     outside="The size, time and kind of files, the header text (C27), ranges (C28), credentials (C29) and templates (C20) are contracts here. The keep alive flag and the other flag bits are arbitrary in each situation.")
prop("C29",
     authq("pairs", 1, 3, 18, BASIC, PW3, flags=NOCHK, reach=["granted", "refused"], bounds="every 3 bytes of credentials, three listed pairs", th=(6, 22)),
     authq("pairs-2", 1, 2, 18, 'SCHEME="basic "', 'PLAIN="uu:"', 'USERS="u","p","uu","p:","uu:",""', flags=NOCHK, reach=["granted", "refused"], bounds="every credentials of uu: and 2 bytes, passwords with colons"),
     authq("memory", 1, 2, 18, BASIC, 'PLAIN="u"', 'USERS="u","p"', reach=["granted", "refused"], bounds="u and 2 bytes of credentials, memory checks"),
     authq("unreadable", 1, 2, 18, BASIC, 'PLAIN="u"', 'USERS="u","p"', "UNREADABLE", flags=NOCHK, reach=["refused"], bounds="a password file that cannot be read"),
     authq("any-header", 2, 4, 14, 'USERS="u","p"', reach=["refused"], bounds="every header of 4 bytes", th=(7, 18)),
     authq("scheme", 2, 5, 24, 'SCHEME=""', 'SUFFIX=" dTpw"', 'USERS="u","p"', reach=["refused"], bounds="a listed pair under every other scheme of 5 bytes"),
     authq("any-base64", 2, 3, 18, 'PREFIX="Basic "', 'USERS="","a"', reach=["refused"], bounds="Basic and any 3 bytes, which cannot be complete credentials"),
     authq("select", 3, 0, 22, 'USERS="u","p"', reach=["end"], bounds="no file, a pair, a wrong password, an unreadable file; the result is arbitrary before the call"),
     LONGA("user-127", U127 + ":p", reach=["granted", "refused"], bounds="a user of 127 bytes, any listed password"),
     LONGA("user-128", U127 + "u:p", reach=["refused"], bounds="a user of 128 bytes"),
     LONGA("password-127", "u:" + U127, reach=["refused"], bounds="a password of 127 bytes"),
     LONGA("password-128", "u:u" + U127, reach=["refused"], bounds="a password of 128 bytes"),
     PROTECTED,
     outside="The pairs of the file are those C18 establishes; the enforcement by the file handler is C31's selection query. Users and passwords of 128 bytes and more are refused by design.")
def routeq(name, unwind, *defs, **kw):
    base = ["VF_MODEL_ACCESS", "VF_MEMCPY_BYTES", 'VF_WWW="/w"'] + list(defs)
    return q(name, "c32_dispatch.c", unwind, defs=base, flags=OB(10) + FS(4100), scale=SCX("viriatum_commons/global/definitions.h:VIRIATUM_MAX_URL_SIZE:200", "viriatum_commons/global/definitions.h:VIRIATUM_MAX_PATH_SIZE:180"), **kw)
RT = ["location", "default", "no handler"]
prop("C32",
     routeq("index", 34, 'TARGETS={"/y/","aa"},{"/a",""},{"","aa"}', "INDEX=1", "RESOLVE=1", "ENDS=3", reach=RT + ["index"], bounds="three locations that match or not, for the path and for the index file, in every combination; matches that end anywhere up to byte 3; folders, files and empty paths"),
     routeq("index-off", 34, 'TARGETS={"","aa"},{"/b/",""},{"/","b"}', "INDEX=0", "RESOLVE=0", "ENDS=2", reach=RT, bounds="the same where the handler takes no index files"),
     routeq("no-index", 34, 'TARGETS={"/","a"},{"/b/",""}', "INDEX=-1", "RESOLVE=1", "ENDS=2", reach=RT, bounds="the same without any index file"),
     routeq("bytes", 34, "BYTES", 'TARGETS={"/yz/","aaa"}', "INDEX=1", "RESOLVE=1", "ENDLO=3", "ENDS=3", reach=RT + ["index"], bounds="the rest of the target, byte for byte, for seven combinations of first matches; arbitrary query bytes"),
     routeq("longest", 210, "LONGEST", reach=["long"], bounds="targets around the size of the buffers (scaled to 200 bytes)"),
     outside="The regular expression engine is a contract (PCRE itself is outside). Paths are concrete, matches are arbitrary. The path is matched undecoded, and index files are looked for below the contents folder, by design of the code.")
def writeq(name, unwind, sizes, *defs, **kw):
    return q(name, "c34_write.c", unwind, defs=["VF_MODEL_SOCKET", "VF_MODEL_TIME", "SIZES=" + sizes] + list(defs), **kw)
prop("C34",
     writeq("two", 5, "2,1", "INITIAL=2", "MORE=0", "KEEP=2", reach=["sent", "blocked", "failed"], bounds="buffers of 2 and 1 bytes, three turns of the loop, every result of every send", thorough=dict(defs=["VF_MODEL_SOCKET", "VF_MODEL_TIME", "SIZES=3,2", "INITIAL=2", "MORE=0", "KEEP=1", "TURNS=5"], unwind=7, timeout=800)),
     writeq("shrink", 5, "3", "INITIAL=1", "MORE=0", "KEEP=0", "TURNS=3", reach=["sent", "blocked", "failed"], bounds="one buffer of 3 bytes, sent a byte at a time or in any other way"),
     writeq("three", 5, "1,1,1", "INITIAL=3", "MORE=0", "KEEP=5", "TURNS=2", reach=["sent", "blocked", "failed"], bounds="three buffers, two turns"),
     writeq("more", 5, "2,0,1", "INITIAL=2", "MORE=2", "KEEP=2", "TURNS=2", reach=["sent", "blocked", "failed", "queued by a callback"], bounds="an empty buffer, and a callback that queues another buffer"),
     writeq("chain", 5, "1,1,1", "INITIAL=1", "MORE=3", "KEEP=0", "TURNS=2", reach=["sent", "blocked", "failed", "queued by a callback"], bounds="callbacks that queue one buffer after the other"),
     writeq("close", 5, "1,1,1", "INITIAL=2", "CLOSES=0", "MORE=0", "KEEP=2", "TURNS=2", reach=["blocked", "failed", "closed by a callback"], bounds="a callback that closes the connection while more is queued, and queues more afterwards"),
     writeq("close-last", 5, "1,2", "INITIAL=2", "CLOSES=1", "MORE=0", "KEEP=1", "TURNS=2", reach=["blocked", "failed", "closed by a callback"], bounds="a callback that closes the connection after the last byte"),
     outside="Plain sockets (TLS is not built here). The polling provider is a stub here, C36 checks the real one.")
READS = "viriatum/global/definitions.h:VIRIATUM_"
prop("C35",
     q("read", "c35_read.c", 10, defs=["VF_MODEL_SOCKET"], scale=SCX(READS + "READ_SIZE:2", READS + "READB_SIZE:5", READS + "MAX_READ:6"), reach=["another turn", "blocked", "closed by the protocol", "ended", "failed"], bounds="every result of every receive of a turn (buffers scaled to 2 and 5 bytes, the limit of a turn to 6), a protocol that closes at any delivery"),
     q("read-3", "c35_read.c", 10, defs=["VF_MODEL_SOCKET"], scale=SCX(READS + "READ_SIZE:3", READS + "READB_SIZE:3", READS + "MAX_READ:4"), reach=["another turn", "blocked", "closed by the protocol", "ended", "failed"], bounds="the same where the buffer holds one receive"),
     outside="Plain sockets (TLS is not built here). That the sizes are scaled is part of the bounds: the code uses them as constants only.")
def loopq(name, events, reaction, kernel, turns, *defs, **kw):
    th = kw.pop("thorough", None)
    return q(name, "c36_loop.c", 4, defs=["VF_MODEL_SOCKET", "VF_MODEL_EPOLL", "VF_MODEL_REALLOC", "TURNS=%d" % turns, "REACTION(t,p,y,k)=(%s)" % reaction, "EVENTS(t,k)=(%s)" % kernel] + list(defs), scale=SCX("viriatum/global/definitions.h:VIRIATUM_MAX_EVENTS:%d" % events), **kw)
RW, PRW = ["read", "write", "deleted", "end"], ["read", "write", "pending read", "pending write", "deleted", "end"]
prop("C36",
     loopq("call", 2, "-1", "15", 1, reach=RW, bounds="two connections with every event, every reaction of every handler (nothing, closing itself, closing the other, asking for another read or write)"),
     loopq("call-3", 2, "-1", "3", 1, "NC=3", reach=RW, bounds="three connections, two with events, one of which may close the third"),
     loopq("events", 2, "0", "-1", 1, reach=RW, bounds="every combination of events of two connections"),
     loopq("interrupt", 2, "k==0?3+y:0", "3", 3, "INTR=2", reach=["interrupted", "end"], bounds="waits that fail or are interrupted"),
     loopq("pending", 2, "t==0?3+y:p==0?-1:0", "t==0?3:15", 2, reach=PRW, bounds="every reaction of every pending operation of two connections"),
     loopq("full", 1, "3+y", "3", 2, reach=["read", "write", "pending read", "pending write", "end"], bounds="lists of one pending operation, with two connections that want one"),
     loopq("full-react", 1, "t==1&&p==0?-1:3+y", "3", 2, reach=["read", "write", "pending read", "pending write", "end"], bounds="the same with every reaction of the pending operations"),
     loopq("full-all", 1, "t==1?-1:3+y", "3", 2, reach=PRW, bounds="the same with every reaction of the second turn", thorough_only=True, timeout=800),
     outside="epoll of the kernel is a contract (it tells of registered sockets, at the edge). The list sizes are scaled to 1 and 2. The select and kqueue providers are not built here.")
def lifeq(name, *histories, **kw):
    return q(name, "c37_life.c", 8, defs=["VF_MODEL_SOCKET", "VF_MODEL_TIME", "HISTORIES=" + ",".join('"%s"' % h for h in histories)], flags=["--memory-leak-check"] + OB(10), **kw)
prop("C37",
     lifeq("plain", "occ", "oowsc", "oe", "oxc", "owcc", reach=["end", "failed"], bounds="opened, written to, sent, closed any number of times, closed by an error or with the service"),
     lifeq("queued", "okwc", "owkssc", "owcwc", "okckc", reach=["end", "failed"], bounds="buffers that are released and that are not, sent in part, and writes after the close"),
     lifeq("sends", "owwssc", "owswsc", reach=["end", "failed"], bounds="every result of two sends", thorough=dict(defs=["VF_MODEL_SOCKET", "VF_MODEL_TIME", 'HISTORIES="okwsssc","owswse","owwssx"'], timeout=800)),
     lifeq("two", "o2wcx", "2oxcc", "o2kxwc", reach=["end"], bounds="two connections of a service that closes them"),
     outside="The deletion by the event loop is C36's. Sockets, their results and the poller are stand-ins. Parameters of a connection are one block, as the code assumes.")
def headq(name, mode, unwind, *defs, **kw):
    return q(name, "c27_headers.c", unwind, defs=["VF_MEMCPY_BYTES", "MODE=%d" % mode, "CAP=%d" % kw.pop("cap", 400)] + list(defs), flags=FS(1100), **kw)
ENDS = "ENDS=1,0,-1,-40,1001,1212"
prop("C27",
     headq("plain", 1, 250, "FROM=0", ENDS, cap=220, reach=["fits", "truncated", "end"], bounds="basic headers of each version, in buffers that end around, before and after the header"),
     headq("length", 1, 250, "FROM=2", ENDS, cap=220, reach=["fits", "truncated", "end"], bounds="the same with a length (up to 2^64 - 1) and caching"),
     headq("not-modified", 1, 250, "FROM=4", ENDS, cap=220, reach=["fits", "truncated", "end"], bounds="the same with a validity and a realm"),
     headq("realm", 1, 250, "FROM=6", ENDS, cap=220, reach=["fits", "truncated", "end"], bounds="the same with an empty realm"),
     headq("message", 2, 300, "SIZES={200,20},{136,20},{130,20},{120,3},{117,20}", reach=["whole", "cut", "end"], bounds="messages of arbitrary bytes that fit the buffer, fit exactly, and do not fit",
           thorough=dict(defs=["VF_MEMCPY_BYTES", "MODE=2", "CAP=400", "SIZES={200,20},{200,50},{130,20},{130,13},{130,14},{136,20},{135,20},{137,20},{118,1},{118,2},{117,1},{117,20}"], timeout=800)),
     headq("responses", 3, 420, scale=SCX("viriatum_commons/global/definitions.h:VIRIATUM_HTTP_SIZE:200"), reach=["end"], bounds="whole responses with messages below, at and above the size of the header buffer (scaled to 200), and errors with and without a template"),
     outside="The texts of a status are listed situations. What the template gives is a stand-in. Headers that do not fit even without a message only have to stay in the buffer.")
def iofq(name, mode, n, **kw):
    d = ["VF_MODEL_FILE", "VF_MODEL_MALLOC", "VF_MEMCPY_BYTES", "MODE=%d" % mode]
    return q(name, "c41_file.c", n + 7, defs=d + ["N=%d" % n], models=["vf_file.c"], flags=["--memory-leak-check"], thorough=dict(defs=d + ["N=%d" % (n * 4)], unwind=n * 4 + 7, timeout=600), **kw)
prop("C41",
     iofq("read", 1, 6, reach=["read", "empty", "not read", "counted", "end"], bounds="files of 0..6 arbitrary bytes that are there or not, have a size or not, and are read in full or in part"),
     iofq("write", 2, 6, reach=["written", "not written", "end"], bounds="0..6 arbitrary bytes over a file of any size, on a disk that takes any part of them, and read back"),
     iofq("join", 3, 5, reach=["joined", "separated", "end"], bounds="folders and names of 0, 1, 2 and 5 arbitrary bytes in a buffer of exactly the size needed"),
     outside="The file system is a small model in memory. Names that start with a separator and listings of folders are outside.")
def textq(name, mode, unwind, n, *defs, **kw):
    th = kw.pop("th", None)
    if th: kw["thorough"] = dict(defs=["MODE=%d" % mode, "N=%d" % th[0]] + list(defs), unwind=th[1], timeout=800, **th[2])
    return q(name, "c21_string.c", unwind, defs=["MODE=%d" % mode, "N=%d" % n] + list(defs), **kw)
prop("C21",
     textq("path", 1, 20, 4, reach=["root", "dot", "suffix", "end"], bounds="last elements, extensions and suffixes of every text of 0..4 bytes", th=(5, 20, {})),
     textq("case", 2, 20, 5, reach=["trimmed", "letters", "end"], bounds="case, separators, trimming and truth of every text of 0..5 bytes", th=(10, 20, {})),
     textq("blanks", 3, 20, 5, reach=["blank", "padded", "end"], bounds="blanks at the ends of every block of 0..5 bytes", th=(12, 20, {})),
     textq("split", 4, 17, 4, "VF_MEMCPY_BYTES", reach=["pieces", "end"], unwindset=["split.0:6", "vf_memcpy.0:5"], bounds="every text of 0..4 bytes split at every byte, with elements of 1 and 3 bytes", th=(5, 20, dict(unwindset=["split.0:7", "vf_memcpy.0:6"]))),
     textq("period", 5, 66, 1, reach=["end"], bounds="eleven periods of time in buffers of 1 to 64 bytes"),
     outside="Null is no separator. The caller of split has room for all pieces (the interface has no count). Sizes as text (format_bytes) use floating point and are outside, as is atoa, which nothing uses.")
