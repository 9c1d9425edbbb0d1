p('C01', 'Bit readers return exactly the requested bits and never run past the data',
  'Reading n bits from a codec header yields exactly the next n bits of the data, most significant first, and moves the position by n; Exp-Golomb codes decode to their standard value. '
  'A read or code that is not completely contained in the data sets the error and never touches a byte outside it, and the error stays set.',
  ['inputs'], 'every buffer content, length, bit offset and width up to 64 bits, every Exp-Golomb code and truncation',
  NOTEST + 'all offsets, widths and truncations.',
  [R + 'ngx_rtmp_bitop.c', T + 'ngx_ts_avc.c'],
  [('bit read', 'ngx_rtmp_bitop.c ngx_rtmp_bit_read; ngx_ts_avc.c ngx_ts_avc_read'),
   ('Exp-Golomb', 'ngx_rtmp_bit_read_golomb; ngx_ts_avc_read_golomb')],
  'Complete for reads of up to 64 bits: geometry enumerated, bytes symbolic; the Exp-Golomb decoder is proved against the reader contract. Trusts CBMC.')
p('C18', 'Publish and play access: the first matching allow/deny rule decides',
  'For every client address, a publish or play request is refused exactly when the first rule that names the address and the operation is a deny rule, where the rules of the inner block come before the inherited ones, in the order written. '
  'A request no rule matches, and a request of an internal session, is let through; an IPv4 client arriving over an IPv6 socket is judged by the IPv4 rules, and "all" matches both families.',
  ['inputs', 'configurations'], 'all rule lists, masks, operations, and client addresses of both families',
  NOTEST + 'all rule lists and addresses.',
  [R + 'ngx_rtmp_access_module.c'],
  [('first match', 'ngx_rtmp_access_inet, ngx_rtmp_access_inet6'), ('inheritance', 'ngx_rtmp_access_merge_rules'),
   ('directive', 'ngx_rtmp_access_rule')],
  'IPv4 lookup proved for any number of rules by loop contract (cvc5); configuration, inheritance, IPv6 and hooks bounded at two rules (three in thorough). Assumes nginx array and CIDR-parsing contracts.')
p('C16', 'The ordered map behaves as a finite function under any history of operations',
  'After any sequence of insertions, replacing insertions and deletions, looking a key up yields the node stored last under it and not deleted since, or nothing. '
  'Inserting a key already present is refused without replacement and replaces the node with it; walking forward or backward from either end visits every stored node exactly once, in opposite orders.',
  ['histories', 'inputs'], 'every history of operations and every assignment of hashes, including colliding ones',
  'Tests insert a few fixed keys; hash collisions and the delete/replace interplay on a collision chain are not covered.',
  [TK + 'ngx_map.c'],
  [('insert, find, delete', 'ngx_map_insert, ngx_map_find, ngx_map_delete'), ('iteration', 'ngx_map_begin, ngx_map_rbegin, ngx_map_next, ngx_map_prev')],
  'Every history of 3 operations (4 in thorough) on 3 keys with symbolic hashes; comparison functions proved for all keys. Assumes the nginx red-black tree insert/delete contract (ordered tree).')
p('C17', 'A recycled buffer or pool is never in the hands of two users',
  'Taking a chain buffer always yields an unlinked link with clean flags and, if asked, an empty buffer of exactly the requested capacity that overlaps none still in use. '
  'Returning one makes it available again; returning it twice has no further effect; a tracked pool is destroyed exactly once however often its destruction is requested.',
  ['histories'], 'every history of gets and puts of buffers of different sizes, and of pool creations and destructions',
  'Tests exercise a handful of get/put sequences; aliasing appears only after particular put/get orders.',
  [TK + 'ngx_rbuf.c', TK + 'ngx_poold.c'],
  [('get and put', 'ngx_get_chainbuf_debug, ngx_put_chainbuf_debug'), ('raw buffers', 'ngx_rbuf_get_buf, ngx_rbuf_put_buf'),
   ('pools', 'ngx_create_pool_debug, ngx_destroy_pool_debug')],
  'Every history of 5 operations on two sizes (bounded). The map used for bookkeeping is replaced by its contract, which C16 checks.')
p('C22', 'A connection limit admits exactly the configured number of connections',
  'With max_connections N set, the connect hook refuses a connection exactly when N are already counted, and every connect adds one to the count shared by all workers and every disconnect takes one off, whatever other workers do at the same time. '
  'A configuration reload keeps the count, a fresh zone starts at zero, and without the directive nobody is refused.',
  ['inputs', 'schedules'], 'every limit, every count and every interference of other workers between critical sections',
  NOTEST + 'all interleavings of workers.',
  [R + 'ngx_rtmp_limit_module.c', R + 'ngx_rtmp_init.c'],
  [('count and refuse', 'ngx_rtmp_limit_connect, ngx_rtmp_limit_disconnect'), ('shared counter', 'ngx_rtmp_limit_shm_init'), ('accept', 'ngx_rtmp_init_connection')],
  'Proved for all counts and limits with other workers as a rely condition outside the mutex; trusts the mutex. Known finding: connect hooks are never run.')
p('C29', 'A connection is served under its listening address and torn down exactly once',
  'An accepted RTMP connection gets a fresh, empty session under the configuration of the listening address that matches its local address (the wildcard, listed last, if none does), with the complete client address kept. '
  'However often a session is finalised, its disconnect hooks run once, every frame still queued for it is released exactly once, and its pools and connection are destroyed once, never while the caller still uses them.',
  ['inputs', 'histories'], 'every set of listening addresses, client address, session kind and queue content',
  NOTEST + 'all addresses, session kinds and queue states.',
  [R + 'ngx_rtmp_init.c'],
  [('accept', 'ngx_rtmp_init_connection, ngx_rtmp_create_session, ngx_rtmp_init_session'),
   ('close', 'ngx_rtmp_finalize_session, ngx_rtmp_close_session_handler, ngx_rtmp_finalize_fake_session, ngx_rtmp_close_session')],
  'Up to 3 addresses per port and 3 frames in a queue of 4 (bounded), addresses of the client symbolic. Core nginx sockets, pools and timers by assumed contract.')
p('C19', 'The live registry finds exactly the servers and streams that exist',
  'After any sequence of operations a server or stream is found, under exactly its own name, from its creation until its deletion, always as the same object, and no two share one. '
  'A server with streams left is deleted only when its last stream goes; creating an existing stream or server returns it untouched; a recycled stream starts blank; a name that does not fit is refused and leaves nothing behind.',
  ['histories'], 'every history of creations and deletions of servers and streams',
  NOTEST + 'the histories of creation, deletion and recycling.',
  [R + 'ngx_live.c'],
  [('servers', 'ngx_live_create_server, ngx_live_fetch_server, ngx_live_delete_server'), ('streams', 'ngx_live_create_stream, ngx_live_fetch_stream, ngx_live_delete_stream'),
   ('recycling', 'ngx_live_get_stream, ngx_live_get_server')],
  'Bounded: every history of 2 operations after five set-up histories, one hash bucket (two in thorough), against an abstract registry.')
p('C04', 'Messages arrive as the peer sent them, however its bytes are cut and interleaved',
  'For a peer that follows the chunk format, every message is handed to the handlers exactly once, in order of completion, with its chunk stream, type, stream id, timestamp (absolute, delta and extended) and complete data, however the bytes are split into reads, the chunk streams interleaved, or the chunk size changed half way. '
  'A chunk stream or message beyond the configured limits, or a header that makes a message shorter than what arrived of it, ends the session; bytes are counted and acknowledged once.',
  ['inputs', 'schedules'], 'every message content, header form, interleaving and split of the byte stream',
  NOTEST + 'all fragmentations, interleavings and header forms.',
  [R + 'ngx_rtmp_handler.c'],
  [('read loop', 'ngx_rtmp_recv'), ('dispatch', 'ngx_rtmp_receive_message'), ('chunk size', 'ngx_rtmp_set_chunk_size, ngx_rtmp_finalize_set_chunk_size'), ('buffers', 'ngx_rtmp_alloc_in_buf')],
  'Bounded: enumerated message lengths up to 60, header forms, splits into reads and chunk size changes; contents and stream ids symbolic. A type 3 chunk starting a message straight after a type 0 one is left out (readings of the specification differ).')
p('C05', 'What a peer reads from the wire is exactly the messages that were queued',
  'The bytes written for a session are the queued messages in order, each as one full chunk header and as many type 3 chunks of the configured size as its data needs, with its chunk stream, timestamp (extended when it does not fit 24 bits), length, type, stream id and unchanged data. '
  'This holds however the data is split into buffers, however many messages are merged into a write and however few bytes each write takes; nothing else is sent and every buffer is returned.',
  ['inputs', 'schedules'], 'every message content, every chunk stream id, timestamp, length and split, and every sequence of partial writes',
  NOTEST + 'all lengths, header forms and partial writes.',
  [R + 'ngx_rtmp_handler.c', R + 'ngx_rtmp_shared_module.c'],
  [('write loop', 'ngx_rtmp_send'), ('chunk headers', 'ngx_rtmp_prepare_out_chain'), ('merging', 'ngx_rtmp_prepare_merge_frame, ngx_rtmp_free_merge_frame'), ('copying', 'ngx_rtmp_shared_append_chain')],
  'Bounded: enumerated ids, timestamps, lengths up to 25 on 8-byte chunks, splits and write sizes; contents, types and stream ids symbolic. The oracle is an independent chunk reader.')
p('C06', 'The send queue admits by priority, keeps order, and never overwrites what waits',
  'A message is accepted exactly when the messages waiting, this one included, plus a quarter of the queue per priority step (at most three) stay below the queue size; it then is last in line and holds one reference more. '
  'A refused message changes nothing. Messages leave in the order they were accepted, each once, and writing is scheduled whenever something waits that may not be corked.',
  ['inputs', 'histories'], 'every fill level, queue position and priority; histories of queueing and writing',
  NOTEST + 'all fill levels and wrap-around positions.',
  [R + 'ngx_rtmp_handler.c', R + 'ngx_rtmp_shared_module.c'],
  [('admission', 'ngx_rtmp_send_message'), ('order', 'ngx_rtmp_prepare_merge_frame, ngx_rtmp_send')],
  'Admission proved for all positions, fill levels, priorities and reference counts for 13 queue sizes (2048 in thorough); order by bounded histories.')
p('C09', 'A shared frame lives exactly as long as someone holds it',
  'A frame is created with one reference and a private copy of the data in as few buffers of the asked size as hold it. Each acquire adds one reference and each release takes one away; as long as one is left the frame and its data stay as they are and the frame is not handed out again. '
  'With the last release each of its buffers is returned exactly once and the frame is recycled; a recycled frame starts empty.',
  ['histories', 'inputs'], 'every number of references, every recycled state and every split of the data',
  NOTEST + 'reference counts and recycled states.',
  [R + 'ngx_rtmp_shared_module.c', R + 'ngx_rtmp.h'],
  [('RTMP frames', 'ngx_rtmp_shared_alloc_frame, ngx_rtmp_shared_append_chain, ngx_rtmp_shared_free_frame'),
   ('MPEG-TS frames', 'ngx_rtmp_shared_alloc_mpegts_frame, ngx_mpegts_shared_append_chain, ngx_rtmp_shared_free_mpegts_frame')],
  'Reference counts symbolic, recycled frames with arbitrary stale content; data sizes and splits enumerated (bounded). MPEG-TS buffers scaled from 1316 to 8 bytes.')
p('C02', 'AMF decoding puts every value asked for in its place and nothing anywhere else',
  'A decoded message gives each value the caller asked for, by position, key or array index, exactly its value when the types agree, in host order, strings cut to the buffer and always terminated; all other values of any kind are skipped and touch nothing. '
  'However the message is split into buffers the result is the same; a message that is cut short, malformed or nested too deeply is an error or ends quietly, and no byte outside of it is ever read.',
  ['inputs'], 'every message structure, value, split into buffers and truncation',
  NOTEST + 'all structures, splits and truncations.',
  [R + 'ngx_rtmp_amf.c'],
  [('values', 'ngx_rtmp_amf_read'), ('objects and arrays', 'ngx_rtmp_amf_read_object, ngx_rtmp_amf_read_array, ngx_rtmp_amf_read_variant'), ('bytes', 'ngx_rtmp_amf_get')],
  'Bounded: enumerated structures (up to 80 levels, strings up to 300 bytes), splits into three buffers and every truncation; values symbolic, against an independent decoder.')
p('C03', 'AMF encoding writes exactly the standard bytes of the given values',
  'Writing a list of values yields, across as many buffers as it takes, exactly their AMF0 encoding: markers, big-endian numbers, string lengths and contents, keys, array counts and object ends, nested to any depth. '
  'A value of a type that cannot be written, and running out of buffers, is reported as an error; the first and last buffer are told to the caller.',
  ['inputs'], 'every list of values, nesting and buffer size',
  NOTEST + 'all value kinds against all buffer boundaries.',
  [R + 'ngx_rtmp_amf.c'],
  [('values', 'ngx_rtmp_amf_write'), ('objects and arrays', 'ngx_rtmp_amf_write_object, ngx_rtmp_amf_write_array'), ('bytes', 'ngx_rtmp_amf_put')],
  'Bounded: enumerated shapes and buffer sizes, values symbolic, against an independent writer; strings up to 260 bytes.')
p('C07', 'Control and status messages are sent byte for byte as the protocol defines them',
  'Every message the server makes itself (chunk size, abort, acknowledgement, window, bandwidth, stream events, pings, status, error, play status, sample access, any AMF message) is queued exactly once at the highest priority with its type, chunk stream, stream id, time and exactly the standard bytes for its arguments, however many chunk-sized buffers that takes. '
  'The outcome of queueing is returned, and the frame with all of its buffers is released in every case; a message that cannot be encoded is not sent.',
  ['inputs'], 'every argument value, string and chunk size',
  NOTEST + 'any of these messages.',
  [R + 'ngx_rtmp_send.c', R + 'ngx_rtmp_amf.c'],
  [('control messages', 'ngx_rtmp_create_*, ngx_rtmp_send_*'), ('AMF messages', 'ngx_rtmp_create_amf, ngx_rtmp_append_amf'), ('sending', 'ngx_rtmp_send_shared_packet')],
  'Control messages proved for all arguments; AMF messages for enumerated strings and chunk sizes (bounded). Assumes a configured chunk size of 10 or more, frames and buffers by contract (C09, C17).')
p('C08', 'A control message or command takes effect exactly once, however it is split',
  'A complete control message has exactly its effect, with the value it carries: a new chunk size (never zero, never beyond the longest message), a new window, the stream event, buffer length or ping reply it stands for; unknown, incomplete and purely informative ones change nothing. '
  'A command goes, in order, to the handlers registered for its name in lower case, until one of them has done with it or fails, each seeing exactly the bytes after the name; what kind of message came before makes no difference.',
  ['inputs', 'histories'], 'every control message content and split into buffers; every command name, payload and handler outcome',
  NOTEST + 'splits, unknown events and handler outcomes.',
  [R + 'ngx_rtmp_receive.c'],
  [('protocol control', 'ngx_rtmp_protocol_message_handler'), ('user control', 'ngx_rtmp_user_message_handler'), ('commands', 'ngx_rtmp_amf_message_handler')],
  'Control messages: all contents, enumerated lengths and splits (bounded); commands: enumerated names up to 130 bytes, payload symbolic. Hash lookup of nginx core assumed.')
p('C28', 'An aggregate is handled as the messages in it',
  'Each inner message that is followed by its back pointer is handled once, in order, with its type, length, stream id, exactly its data, and the time of the aggregate plus its distance from the first inner message; then the buffers are linked and filled as before. '
  'Handling stops with an error at the first one that fails; a truncated aggregate never reads past its data, and neither aggregates nor chunk size changes are accepted inside one.',
  ['inputs'], 'every split into buffers, every content, time and truncation',
  NOTEST + 'splits and truncations of aggregates.',
  [R + 'ngx_rtmp_receive.c'],
  [('aggregates', 'ngx_rtmp_aggregate_message_handler'), ('reading', 'ngx_rtmp_fetch, ngx_rtmp_fetch_uint32')],
  'Bounded: up to three inner messages, enumerated lengths, splits and every truncation; contents and times symbolic.')
p('C20', 'URLs and socket addresses are taken apart exactly as they are written',
  'A URL scheme://[user@]host[:port]/path[?args][#fragment] is accepted exactly when every part it announces is there, and every part is then exactly its slice of the text, absent ones empty (a fragment is told apart only after arguments); '
  'its port is the number given if that lies in 1 to 65535, else 0, and without one the default of the scheme. An address is an IPv4 address, a bracketed IPv6 address or "unix:" and a path that fits, with an optional port up to 65535; anything else is refused. No byte past the text is read.',
  ['inputs'], 'every text',
  'Tests parse a dozen fixed URLs; delimiters in unusual places, addresses and over-long input are not covered.',
  [TK + 'ngx_toolkit_misc.c'],
  [('URL', 'ngx_parse_request_url, ngx_request_port'), ('addresses', 'ngx_sock_pton, ngx_sock_pton_inet, ngx_sock_pton_inet6, ngx_sock_pton_unix'), ('copies', 'ngx_copy_str')],
  'Bounded: every text of up to 12 bytes (20 in thorough), unix paths around the limit; the dotted and colon notation itself is nginx core, assumed.')
p('C21', 'Whoever asks for a name is answered once, with an address of that name',
  'Each request for a name is answered exactly once: at once if it is a literal address or was resolved before, else when a lookup of it ends, fails or the name is deleted; a success carries one complete address of the latest answer for this very name, of either family, a failure none. '
  'An answer for a name deleted meanwhile changes nothing, letter case does not matter, refreshes look every name up, and each lookup is ended and its context released once.',
  ['histories', 'inputs'], 'every history of adding, deleting, asking, refreshing and answers, every address',
  'Tests resolve one fixed name; outstanding answers, IPv6, failures and deletions are not covered.',
  [TK + 'ngx_dynamic_resolver.c', TK + 'ngx_event_resolver.c'],
  [('asking', 'ngx_dynamic_resolver_start_resolver, ngx_dynamic_resolver_gethostbyname'), ('answers', 'ngx_dynamic_resolver_on_result'), ('lookup', 'ngx_event_resolver_start_resolver')],
  'Bounded: enumerated histories of up to 10 steps on three names with up to nine addresses per answer; address contents symbolic. nginx-core resolver by contract.')
