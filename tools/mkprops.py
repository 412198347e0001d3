#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are kept)."""
import json, os
C='src/viriatum_commons/'; V='src/viriatum/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                     observe_at=observe or [],hook_needed=None)))

# ---- checksums, ciphers, encodings
p('C01','CRC-32 equals the standard CRC-32 for every message',
  'For every byte string of every length, the CRC-32 the library computes is the standard (IEEE 802.3, reflected) CRC-32 of exactly those bytes. Computing it never modifies the message and never reads outside it.',
  ['inputs'],'all messages (contents and lengths)',
  'One message is tested; a wrong table entry or a length-dependent slip shows only for particular bytes.',
  [C+'checksum/crc_32.c'],[('table-driven update',C+'checksum/crc_32.c:crc_32')])
p('C02','MD5 and SHA-1 digests are standard for any message and any chunking',
  'For every message, the MD5 and SHA-1 digests produced by the streaming interface (start, any sequence of updates, finish) are the standard digests of the concatenation of the updates. The result does not depend on how the message was cut into updates, including empty updates and cuts at or around block boundaries.',
  ['inputs','histories'],'all messages, all ways of splitting them into updates',
  'The tests hash a handful of short strings in one update; padding corner lengths and mid-block carry-over are never reached.',
  [C+'checksum/md5.c',C+'checksum/sha1.c'],[('block buffering and padding',C+'checksum/md5.c:update_md5, finalize_md5; '+C+'checksum/sha1.c:update_sha1, finalize_sha1')])
p('C03','RC4 encryption is standard, symmetric and chunk independent',
  'Encrypting with a key of one or more bytes produces the standard RC4 key stream XORed with the data, so decrypting with a fresh context of the same key returns the original. Feeding the data in several pieces gives the same output as feeding it in one.',
  ['inputs','histories'],'all keys, all data, all splits of the data',
  'One key and one text are tested.',
  [C+'crypto/rc4.c'],[('key schedule and stream state',C+'crypto/rc4.c:create_rc4, execute_rc4')])
p('C04','Base64 round-trips every byte string and never leaves its buffers',
  'For every byte string, encoding yields the standard padded Base64 text with the right length, and decoding that text returns exactly the original bytes and length. Decoding arbitrary (also malformed) text never reads outside the text nor writes outside the buffer it allocates: it returns an error or some bytes.',
  ['inputs'],'all byte strings to encode; all texts to decode, of every length',
  'A few fixed strings are round-tripped; malformed text, which clients send in the Authorization header, is never tried.',
  [C+'encoding/base_64.c',C+'encoding/base_64.h'],[('size computation and padding',C+'encoding/base_64.c:encode_base64, decode_base64')])
p('C05','Percent encoding round-trips and decoding stays inside the input',
  'For every byte string, decoding its percent-encoded form returns the same bytes, and the encoded form consists only of unreserved characters and %XX escapes. Decoding arbitrary text of a given length reads only those bytes, writes at most that many plus the terminator, and decodes each complete escape to its byte.',
  ['inputs'],'all byte strings; all texts including truncated or invalid escapes',
  'Only a few well-formed strings are tested; a request path ending in "%" or "%4" is not.',
  [C+'encoding/percent.c'],[('escape scanning',C+'encoding/percent.c:encode_percent, decode_percent')])
p('C06','Bencoding round-trips every value and decoding hostile bytes is safe',
  'For every value built from integers, strings (also empty), lists and string-keyed dictionaries, encoding and then decoding gives an equal value, and the encoding is the standard bencoding with dictionary keys sorted. Decoding arbitrary bytes never reads outside the buffer or crashes: it returns a value or an error.',
  ['inputs'],'all values up to a nesting and size; all byte strings',
  'The tests decode and re-encode one dictionary.',
  [C+'encoding/bencoding.c',C+'structures/type.c'],[('token state machine and value stack',C+'encoding/bencoding.c:decode_bencoding, encode_bencoding')])
p('C07','URL parsing splits a URL into exactly its components',
  'For every URL of the accepted shape scheme://[user:password@]host[:port]/path[?query][#fragment], parsing reports for each component exactly the substring between its delimiters and the numeric port, and reports absent components as empty. Copying the parsed URL into its fixed-size form keeps every component unchanged and terminated, and text of any shape or length makes parsing fail cleanly or succeed without touching memory outside the text and the result.',
  ['inputs'],'all texts of all lengths',
  'Two or three well-formed URLs are tested and the fixed-size copy is not checked field by field.',
  [C+'formats/url.c',C+'formats/url.h'],[('delimiter scanning',C+'formats/url.c:parse_url'),('fixed-size copy',C+'formats/url.c:parse_url_static')])
p('C08','Huffman decoding restores what was encoded',
  'For every input, encoding it with the generated code table and decoding the result with the same table (in memory or through its serialised form) gives back exactly the original bytes, whatever the number of distinct symbols. The generated codes are prefix free and no longer than the code size limit.',
  ['inputs'],'all inputs, including inputs with one distinct byte value',
  'One text is round-tripped.',
  [C+'compression/huffman.c',C+'compression/huffman.h'],[('frequency, tree and table construction',C+'compression/huffman.c:generate_table_huffman, _compute_code_huffman'),('encode and decode loops',C+'compression/huffman.c:encode_huffman, decode_huffman')])
# ---- streams
p('C09','Bit stream reads back exactly the bits written',
  'Any sequence of writes of symbols of one to many bits, flushed and read back with the same sequence of sizes, yields the same symbols; the bytes produced are the bits in writing order, most significant first, zero padded, and bits past the end read as zero. Seeking back by a number of bits and reading again yields the same bits as before.',
  ['inputs','histories'],'all sequences of symbol sizes and values, all seek positions',
  'One fixed sequence of writes and reads is tested.',
  [C+'stream/bit_stream.c'],[('bit buffer and refill',C+'stream/bit_stream.c:write_word_bit_stream, read_word_bit_stream, seek_bit_stream')])
p('C10','Memory stream behaves like a file',
  'Any sequence of writes, reads, seeks and tells on a memory stream has the same observable results as on a seekable growable file: reads return the bytes last written at those positions, the position advances by the bytes transferred, overwriting does not change the size, a gap left by seeking past the end and writing reads as zeros, and reads at or past the end return nothing. No sequence touches memory outside the stream buffer.',
  ['inputs','histories'],'all sequences of operations with all sizes and positions',
  'Tests only write sequentially and read back.',
  [C+'stream/memory_stream.c'],[('position, size and growth bookkeeping',C+'stream/memory_stream.c:write_memory_stream, read_memory_stream, seek_memory_stream')])
# ---- containers
p('C11','Array list and linked list behave as sequences',
  'After any sequence of operations (indexed set, which grows the list, and get on array lists; append, get, peek, pop, remove by value or position, clear, iterate and sort on linked lists) the list holds exactly the elements a sequence would hold, in order, with the right size. Reads beyond the end yield nothing, and no operation touches memory outside the list or leaks or reuses a released node.',
  ['inputs','histories'],'all sequences of operations with all arguments',
  'Tests append and read a few values; growth at capacity, clear followed by append and removal at the ends are not covered.',
  [C+'structures/array_list.c',C+'structures/linked_list.c'],[('growth and indexing',C+'structures/array_list.c'),('node linking',C+'structures/linked_list.c')])
p('C12','Hash map behaves as a map under any history',
  'After any sequence of sets and gets with integer or text keys, reading a key returns the value most recently set for that key and nothing for keys never set, through collisions and growth; the reported size is the number of distinct keys. Iterating visits each key set exactly once.',
  ['inputs','histories'],'all sequences of operations and all keys, including colliding ones and ones that force growth',
  'A handful of keys are tested; colliding hash values, overwrites and rehash boundaries are hit only by chance.',
  [C+'structures/hash_map.c'],[('open addressing and growth',C+'structures/hash_map.c:set_value_hash_map, get_value_hash_map, _ensure_size_hash_map')])
p('C13','Sort map behaves as an insertion ordered map',
  'After any sequence of text-keyed sets and gets, reading a key returns the value most recently set for it, and iterating visits each distinct key exactly once in the order of first insertion. Setting a key again replaces its value without disturbing the others.',
  ['inputs','histories'],'all sequences of sets, gets and iterations, including repeated keys',
  'Repeated keys, which configuration files and bencoded data can contain, are not tested.',
  [C+'structures/sort_map.c'],[('paired list and hash map',C+'structures/sort_map.c')])
p('C14','Sorting returns an ordered permutation',
  'Sorting any list of any size, also empty or with equal elements, leaves exactly the same elements in non-descending order of the comparison used. Nothing outside the list is read or written.',
  ['inputs'],'all lists up to a size, all comparison outcomes',
  'Two fixed lists are sorted.',
  [C+'sorting/quicksort.c',C+'structures/linked_list.c'],[('partition',C+'sorting/quicksort.c'),('list sort through array',C+'structures/linked_list.c:sort_linked_list')])
p('C15','Priority queue always yields the smallest remaining element',
  'After any sequence of pushes and pops, a pop returns an element that no remaining element precedes, each pushed element is popped exactly once, and popping an empty queue yields nothing and leaves the queue usable.',
  ['inputs','histories'],'all sequences of pushes and pops with all priorities, with the default and a custom comparison',
  'One sequence is tested.',
  [C+'structures/priority_queue.c'],[('ordering on insertion',C+'structures/priority_queue.c')])
p('C16','String and linked buffers concatenate exactly what was appended',
  'Joining a string buffer or a linked buffer after any sequence of appends yields exactly the concatenation of the appended pieces in order, and the reported length is its length. Later appends and a second join behave the same, and no piece is altered or read outside its bounds.',
  ['inputs','histories'],'all sequences of appends of all kinds and sizes',
  'A single join of two or three constants is tested.',
  [C+'structures/string_buffer.c',C+'structures/linked_buffer.c',C+'structures/buffer.c'],[('piece list and length accounting',C+'structures/string_buffer.c:append_string_buffer, join_string_buffer; '+C+'structures/linked_buffer.c')])
# ---- configuration
p('C17','Configuration files are read as the sections and keys they contain',
  'For every configuration file, each "key = value" line under a "[section]" line is returned as that key with that value (outer blanks removed) in that section, with comments ignored and the last line counting whether or not it ends with a newline. A file of any content, with lines of any length, is handled without touching memory outside the fixed buffers.',
  ['inputs'],'all file contents',
  'One sample file is parsed.',
  [C+'ini/ini.c'],[('line state machine',C+'ini/ini.c:process_ini_file and callbacks')])
p('C18','Password files yield exactly the user and password pairs they list',
  'For every password file, each "user:password" line, including a last line without newline, is returned as that pair and nothing else is. Content of any shape or length is handled without touching memory outside the fixed buffers.',
  ['inputs'],'all file contents',
  'No test parses a password file.',
  [C+'formats/passwd.c'],[('line state machine',C+'formats/passwd.c:process_passwd_file')])
p('C19','Command-line arguments are parsed into exactly the options given',
  'For every argument vector, each --key=value argument is recorded with exactly that key and value and each --key argument as that key without value; other arguments are skipped. Arguments of any length or shape are handled without touching memory outside the fixed buffers.',
  ['inputs'],'all argument vectors',
  'Two well-formed arguments are tested.',
  [C+'util/arguments_util.c'],[('option scanning',C+'util/arguments_util.c:process_arguments, _process_argument')])
p('C20','Templates render literally outside tags and with bound values inside',
  'For every template, all text outside tags appears unchanged and in order in the output, value tags are replaced by the bound value, conditional blocks appear exactly when their condition holds and loops repeat their body once per element. A template of any content renders or fails without touching memory outside its buffers.',
  ['inputs'],'all template texts and bindings up to a size',
  'One template is rendered, and the comparison is not byte exact.',
  [C+'template/engine.c',C+'template/handler.c'],[('tag scanner',C+'template/engine.c:process_template_engine'),('node tree and evaluation',C+'template/handler.c')])
p('C21','Text helpers return exactly the requested part of the text',
  'For every string, splitting yields the pieces between separators in order, trimming and case folding change only what they name, the extension and the last path element of a path are exactly that suffix, and suffix tests are true exactly for suffixes. None reads or writes outside the string and the given buffer.',
  ['inputs'],'all strings up to a length, all separators and counts',
  'Most helpers are untested; the others see one constant each.',
  [C+'util/string_util.h'],[('helpers',C+'util/string_util.h:split, trim, lowercase, extension_path, base_string_value, ends_with_string, format_delta, leading_offset, trailing_size')])
p('C22','Thread pool runs every inserted task exactly once',
  'Under every interleaving of inserting threads and workers, each inserted task is run exactly once, in insertion order of being taken, and a worker never takes from an empty queue or waits forever while tasks are queued. The task queue is only touched while its lock is held.',
  ['schedules'],'all interleavings at synchronisation points',
  'The test starts a pool and a few tasks once; one schedule is seen.',
  [C+'thread/thread_pool.c'],[('condition and lock',C+'thread/thread_pool.c:insert_task_thread_pool, pool_runner_thread')])
# ---- http
p('C23','The HTTP parser survives every byte sequence',
  'For every sequence of bytes, fed in any pieces, the request or response parser terminates, consumes no more than it was given, never reads outside the data, never aborts, and either keeps parsing or reports an error.',
  ['inputs','histories'],'all byte sequences and all ways of cutting them',
  'A few well-formed requests are parsed whole.',
  [V+'http/http_parser.c'],[('per-byte state machine',V+'http/http_parser.c:process_data_http_parser')])
p('C24','HTTP parsing does not depend on how the bytes arrive',
  'For every request or response, delivering its bytes in one piece or cut at any points reports the same method, version, target, header fields and values, body bytes and completion, and leaves the parser in the same state.',
  ['inputs','histories'],'all messages and all cut points',
  'Tests always deliver a message whole; the network does not.',
  [V+'http/http_parser.c',V+'stream/stream_http.c'],[('state carried between calls',V+'http/http_parser.c:process_data_http_parser'),('accumulating connection buffer',V+'stream/stream_http.c:data_handler_stream_http')])
p('C25','HTTP messages are framed exactly as their headers say',
  'For every well-formed message the parser reports the exact method, target, version, status and header names and values, delivers as body exactly the bytes given by the content length or by the chunk sizes, and signals completion exactly at the last byte so the next pipelined message starts right after it. Whether the connection persists is decided from version and connection header as HTTP/1.x prescribes.',
  ['inputs'],'all well-formed messages up to a size: methods, targets, header names and values, lengths, chunkings, versions',
  'Only a couple of requests without body are parsed.',
  [V+'http/http_parser.c'],[('header matching and body framing',V+'http/http_parser.c:process_data_http_parser'),('keep-alive rule',V+'http/http_parser.c:http_should_keep_alive')])
p('C26','Pipelined requests on a connection are all answered, once and in order',
  'For every stream of complete requests arriving in any pieces on a connection, each request is handed to its handler exactly once, in order, with its own bytes, and only after the previous one released the connection. Malformed input closes the connection, and the connection buffer is never accessed after it was moved or released.',
  ['inputs','histories','schedules'],'all request streams, cut points, and moments of release relative to arrival',
  'No test drives a connection.',
  [V+'stream/stream_http.c'],[('buffer growth, offsets and lock',V+'stream/stream_http.c:data_handler_stream_http, acquire_http_connection, release_http_connection')])
p('C27','Generated HTTP responses are well formed and fit their buffer',
  'For every status, message, version and connection mode, the response header written has the status line, connection, server and length lines asked for and ends as requested, and its stated content length equals the body that follows. No text length makes the writer run outside its buffer.',
  ['inputs'],'all field values and buffer sizes',
  'No test writes a response.',
  [V+'http/http_util.c'],[('header writers',V+'http/http_util.c:write_http_headers, write_http_headers_c, write_http_headers_a, write_http_headers_m, write_http_message, write_http_error_a')])
p('C28','A byte range request selects bytes inside the file',
  'For every range header and file size, the selected first and last byte are those requested (first-last, first- or -suffix), limited to the file, so the announced length equals the bytes available and is never larger than the file.',
  ['inputs'],'all range texts and all file sizes',
  'No test requests a range.',
  [V+'http/http_util.c',V+'handlers/handler_file.c'],[('range parsing',V+'http/http_util.c:get_http_range_limits')])
p('C29','Basic authentication grants access exactly to valid credentials',
  'For every authorization header, access is granted exactly when it is the basic credential of a user listed in the password file together with that password; anything else, including malformed headers, is refused. No header content or length touches memory outside the buffers.',
  ['inputs'],'all authorization header values, all password files up to a size',
  'No test authenticates.',
  [V+'http/http_util.c',V+'handlers/handler_file.c'],[('credential check',V+'http/http_util.c:auth_http, auth_file_http'),('enforcement',V+'handlers/handler_file.c:message_complete_callback_handler_file')])
# ---- handlers
p('C30','The file handler never serves a path outside the served folder',
  'For every request target, also with percent escapes and dot segments, the file or folder opened lies inside the configured contents folder or the folder configured for the location. A target of any length is handled without touching memory outside the fixed buffers.',
  ['inputs','configurations'],'all request targets, with and without a location folder',
  'No test requests a file.',
  [V+'handlers/handler_file.c'],[('path construction and decoding',V+'handlers/handler_file.c:path_callback_handler_file, location_callback_handler_file, url_callback_handler_file')])
p('C31','A file response carries exactly the requested bytes of the file',
  'For every file size and range, the body bytes queued are exactly the selected bytes of the file in order and as many as the header announces, after which the connection is closed or kept as negotiated and the file is closed exactly once. Conditional requests with the current tag get 304 without body, missing files get 404 and folders without trailing slash are redirected to the same path plus slash.',
  ['inputs','histories'],'all file sizes, ranges, read sizes, header combinations',
  'No test serves a file.',
  [V+'handlers/handler_file.c'],[('response selection',V+'handlers/handler_file.c:message_complete_callback_handler_file'),('chunk loop',V+'handlers/handler_file.c:_send_chunk_handler_file, _cleanup_handler_file')])
p('C32','Requests are routed to the first matching location',
  'For every request target and list of locations, the handler chosen is that of the first location whose pattern matches the path, or the default handler when none does, and it receives the path without query, the location index and the remaining target. When a folder is requested and a default index file exists, that file is requested instead.',
  ['inputs','configurations'],'all targets, location tables and match outcomes',
  'No test dispatches.',
  [V+'handlers/handler_dispatch.c'],[('location scan',V+'handlers/handler_dispatch.c:url_callback_handler_dispatch')])
p('C33','The proxy forwards requests and responses byte for byte',
  'For every request and response of any size, the bytes queued to the backend are the request line, headers and body of the client message, and the bytes queued to the client are the status line, headers and body of the backend message, each in order, complete and exactly once. Growing the forwarding buffers never loses data or touches released memory.',
  ['inputs','histories'],'all message sizes, header counts and arrival patterns',
  'No test proxies.',
  [V+'handlers/handler_proxy.c',V+'handlers/handler_proxy.h'],[('forwarding buffers',V+'handlers/handler_proxy.h:write_proxy_buffer, write_proxy_out_buffer'),('callbacks',V+'handlers/handler_proxy.c')])
# ---- connections
p('C34','Queued response data is sent completely, in order and once',
  'For every sequence of queued buffers and every pattern of partial, blocked or failed sends, the bytes handed to the socket are a prefix of the concatenation of the buffers, complete once everything was accepted; each completion callback runs exactly once, after its last byte and in order. A failed send closes the connection.',
  ['histories','fault_sequences','schedules'],'all queues, all partial-send and error patterns',
  'No test writes to a socket.',
  [V+'stream/stream_io.c',V+'system/service.c'],[('write loop',V+'stream/stream_io.c:write_handler_stream_io'),('queueing',V+'system/service.c:write_connection_c')])
p('C35','Received data reaches the protocol completely and in order',
  'For every pattern of receive results, the protocol handler is given exactly the bytes received, in order and once, before the connection is closed on end of stream or error. When the peer has more data than one turn allows the connection is scheduled again, and after a close nothing more is read or delivered.',
  ['histories','fault_sequences','schedules'],'all receive patterns, including end of stream, would-block and errors at any point, and handlers that close the connection',
  'No test reads from a socket.',
  [V+'stream/stream_io.c'],[('read loop',V+'stream/stream_io.c:read_handler_stream_io')])
p('C36','The event loop never touches a released connection',
  'For every sequence of socket events and handler reactions (close, queue more data, ask for another turn), the poller calls handlers only on open connections, releases each closed connection exactly once at the end of the turn, and never uses it afterwards. Its event tables never overflow.',
  ['schedules','histories','fault_sequences'],'all event sequences and handler reactions over several turns',
  'No test runs the event loop.',
  [V+'polling/polling_epoll.c',V+'system/service.c'],[('deferred removal and outstanding lists',V+'polling/polling_epoll.c:_call_polling_epoll, _outstanding_polling_epoll, unregister_connection_polling_epoll')])
p('C37','Closing a connection releases everything it owns exactly once',
  'For every history of a connection (opened, data queued, partly sent, closed any number of times, then deleted), its close handler runs once, its socket is closed once, it leaves the service and poller lists, and all queued buffers and its structures are released exactly once.',
  ['histories'],'all histories up to a length',
  'No test opens a connection.',
  [V+'system/service.c',V+'stream/stream_io.c'],[('lifecycle',V+'system/service.c:open_connection, close_connection, delete_connection')])
p('C38','Effective options follow command line over file over defaults',
  'For every combination of defaults, configuration file and command line, each effective option equals the command line value when given, otherwise the value from the file, otherwise the documented default. Locations are exactly the complete location sections of the file in order.',
  ['configurations','inputs'],'all combinations of options and values',
  'No test loads options.',
  [V+'system/service.c'],[('layered loading',V+'system/service.c:_default_options_service, _file_options_service, _comand_line_options_service, calculate_locations_service')])
p('C39','The content type depends only on the extension, ignoring case',
  'For every file name, the content type found is the one registered for its extension irrespective of letter case, and none is found for unregistered or missing extensions. An extension of any length is handled without touching memory outside the lookup buffer.',
  ['inputs'],'all file names',
  'No test looks up a content type.',
  [V+'system/service.c',C+'util/string_util.h'],[('lookup',V+'system/service.c:_get_mime_type_service')])
p('C40','Typed values copy, convert and release consistently',
  'For every typed value (integer, float, string, list, map), reading it back gives what was stored, its textual form is that of the value, and releasing a value of any shape frees each part exactly once.',
  ['inputs','histories'],'all values up to a nesting and size',
  'A single list is built and released.',
  [C+'structures/type.c',C+'structures/type.h'],[('tagged union',C+'structures/type.c')])
p('C41','File helpers read, write and join paths faithfully',
  'For every content, writing a file and reading it back gives the same bytes and counting gives its length; short reads, missing files and unopenable paths are reported as errors without leaking the file or memory. Joining a folder and a name gives one path with exactly one separator between them.',
  ['inputs','fault_sequences'],'all contents and lengths, all open and read outcomes',
  'One file is written and read.',
  [C+'io/file.c'],[('file access',C+'io/file.c:read_file, write_file, count_file, join_path_file')])
p('C42','Peer tracker and handshake messages have the exact wire format',
  'For every info hash and peer identity the handshake sent to a peer is the fixed 68-byte message with those values in place, and query parameters sent to the tracker are each key, an equals sign and the percent-encoded value, joined by ampersands. All text lengths are handled within the buffers.',
  ['inputs'],'all hashes, identities and parameter values',
  'No test builds these messages.',
  [V+'stream/stream_torrent.c',V+'http/http_util.c'],[('handshake',V+'stream/stream_torrent.c'),('parameters',V+'http/http_util.c:parameters_http, parameters_http_c')])
p('C43','Encrypted connections complete their handshake before any data flows',
  'For every sequence of handshake outcomes on a secured connection, request data is read or written only after the handshake succeeded, and a failed handshake closes the connection.',
  ['schedules','fault_sequences'],'all handshake outcome sequences',
  'No test makes a secured connection.',
  [V+'stream/stream_io.c'],[('handshake handler',V+'stream/stream_io.c:handshake_handler_stream_io')])
p('C44','Loaded modules serve requests without corrupting the server',
  'For every request routed to the diagnostics, image or script modules, the module answers exactly once with a well-formed response carrying its content, and releases what it allocated.',
  ['inputs','histories'],'all requests routed to a module',
  'No test loads a module.',
  ['modules/mod_diag/src/viriatum_mod_diag/module/handler.c','modules/mod_gif/src/viriatum_mod_gif/module/handler.c','modules/mod_lua/src/viriatum_mod_lua/module/handler.c'],[('handlers','modules/*/src/*/module/handler.c')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
