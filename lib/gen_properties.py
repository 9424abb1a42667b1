#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
U='api/src/cmp/unicode/'; UI='api/include/cmp/unicode/'
I='api/src/cmp/io/'; II='api/include/cmp/io/'
G='api/src/cmp/desktop_gui/'; C='api/src/cmp/core/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=list(files),
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(obs),hook_needed=None)))

p('C01','Conversion between Unicode encodings is lossless and canonical',
 'Converting well-formed text between UTF-8, UTF-16, UTF-32 and wide strings (to_u8string, to_u16string, to_u32string, to_wstring, convert_string, from strings, views and null-terminated arrays) yields exactly the same sequence of code points in the one canonical encoding of the target, so every round trip returns the original code units. Inserting, appending or prepending a valid code point puts exactly its canonical encoding at the given index and leaves every other code unit of the string as it was. Code points that are ASCII convert to and from plain char strings unchanged.',
 ['inputs','histories'],'for every code point U+0000..U+10FFFF except surrogates, every sequence of them, every pair of encodings, and every insertion history',
 'The tests convert a few fixed strings; the mapping has 1,112,064 points, five target types and boundaries at every encoding length, and errors sit at single boundary values.',
 [U+'algorithms.ipp',U+'by_code_point.cpp',U+'impl/impl.cpp',UI+'algorithms.hpp'],
 [('insert_code_point encodes per target type',U+'algorithms.ipp'),('by_code_point decodes per source type',U+'by_code_point.cpp'),('convert_string composes both',U+'algorithms.ipp')],
 obs=['strings returned by convert_string/to_*','string after insert/append/prepend_code_point'])
p('C02','Ill-formed text and invalid code points are never accepted',
 'For every UTF-8, UTF-16, UTF-32 or wide input that is not well formed (truncated or overlong sequences, stray trailing units, lone or encoded surrogates, values above U+10FFFF) converting it to a Unicode string throws an encoding error, as does iterating UTF-8 or UTF-16 at the first ill-formed sequence, never producing text for it or touching memory outside the input, and validate_string returns the position of that first ill-formed sequence, or the end for well-formed text. Inserting, appending or prepending a code point that is a surrogate or above U+10FFFF into a Unicode string throws invalid_code_point and leaves the string unchanged.',
 ['inputs'],'for every sequence of code units of every encoding form, at every buffer boundary',
 'The tests check a handful of malformed strings; acceptance bugs sit at particular byte patterns and at the very end of the buffer, where a plain test run does not notice an over-read.',
 [U+'by_code_point.cpp',U+'impl/impl.cpp',U+'algorithms.ipp',U+'examiners.ipp'],
 [('sequence decoding with bounds and range validation',U+'by_code_point.cpp'),('validate_utf8_sequence / initialize_utf16_sequence',U+'impl/impl.cpp'),('is_code_point_valid guard',U+'algorithms.ipp'),('validate_string',U+'algorithms.ipp')],
 obs=['exception type','position returned by validate_string','AddressSanitizer on exactly-sized buffers'])
p('C03','Code point iteration is exact, bidirectional and consistent',
 'Iterating well-formed text by code point visits exactly its code points in order, forwards and backwards, through iterator, const_iterator and both reverse iterators; ++ and -- (prefix and postfix), +=, -=, + and - by n >= 0 move by exactly n code points and are inverse to each other, and equality holds exactly when two iterators are at the same code point. Dereferencing at the end of the text throws iterated_past_end, and so does incrementing there in UTF-8 and UTF-16, leaving the iterator where it was. An iterator depends on the text alone: it, and what was dereferenced from it, stay good when the by_code_point object it came from is gone and when the iterator moves on.',
 ['inputs','histories'],'for every well-formed string in every encoding and every sequence of iterator operations on it',
 'The tests walk fixed strings once in each direction; mixes of operations over sequences of different lengths are unbounded.',
 [U+'by_code_point.cpp',UI+'by_code_point.hpp'],
 [('advance/retreat over sequences of 1..4 units',U+'by_code_point.cpp'),('reverse iterators on top of the forward ones',UI+'by_code_point.hpp')],
 state=[('iterator position','index of a code point boundary in the text',UI+'by_code_point.hpp')],
 obs=['*it, it == other, exceptions after each operation'])
p('C04','starts_with and ends_with compare by code point across encodings',
 'starts_with(content, s) and ends_with(content, s) return true exactly when the code points of s are a prefix or, respectively, a suffix of the code points of content, whatever the encodings of the two texts are; the empty text is a prefix and a suffix of every text. On ill-formed text they throw or answer, but never read outside either text nor end the program.',
 ['inputs'],'for every pair of texts and every pair of encodings',
 'The tests use a few literal pairs; the property ranges over pairs of texts in 5x5 encodings including shared partial sequences.',
 [U+'algorithms.ipp'],[('parallel iteration by code point',U+'algorithms.ipp')],obs=['returned bool'])
p('C05','Character and code point classification is exact on its whole domain',
 'fits_in_7_bits, is_standalone_byte, is_leading_byte, is_trailing_byte, is_leading_surrogate, is_trailing_surrogate, is_surrogate and is_code_point_valid each return true exactly for the values the Unicode encoding forms give that role, is_whitespace exactly for the 25 code points with the White_Space property, and is_radix_digit exactly for the digits 0-9 and letters a-z/A-Z whose value is below the radix, for every value of their argument type.',
 ['inputs'],'for every value of char32_t (and char8_t, char16_t where that is the argument) and every radix 2..36',
 'The tests probe a few characters of each class; membership of the other values, in particular at interval ends and above the BMP, is never observed.',
 [U+'examiners.ipp',UI+'examiners.hpp',UI+'constants.hpp'],[('range comparisons',U+'examiners.ipp'),('boundary constants',UI+'constants.hpp')],obs=['returned bool'])
p('C06','Integer formatting is exact for every value, radix and format',
 'format_integer yields the unique canonical representation of the value in the format: digits of the radix in upper case without leading zeros, a minus sign exactly for negative values, a plus sign exactly for positive values when signs are always shown, and the chosen separator between every group of three digits counted from the right. This holds for every value of every integer type, including the extremes, and for every target string type.',
 ['inputs','configurations'],'for every integer value and type, radix 2..36, sign mode, separator mode and target string type',
 'The tests format a few values in a few formats; the product of extremes, radices, signs and separators is not sampled.',
 [U+'formatters.ipp',U+'formats.cpp'],[('digit extraction and prepend',U+'formatters.ipp')],obs=['returned string'])
p('C07','Integer parsing accepts exactly well-formed numbers that fit',
 'parse_integer accepts a text exactly when it is a number in the given format (an optional minus, or plus where signs are always shown, as its first character only, digits of the radix in either case, and separators exactly every three digits when the format has them) that fits the output type, and returns its value; every other text is rejected with parse_failed whose type tells the cause, never a wrong number. Parsing is the inverse of formatting with the same format for every value, and works alike in every text encoding.',
 ['inputs','configurations'],'for every text, output type, radix, sign mode, separator mode and encoding',
 'The tests parse a few literals; the set of texts is infinite and overflow, sign placement and separator placement interact.',
 [U+'parsers.ipp',U+'parsers.cpp'],[('right-to-left scan with digit, sign and separator checks',U+'parsers.ipp'),('range checks',U+'parsers.ipp')],obs=['returned value or parse_failed::get_type'])
p('C08','Floating point formatting and parsing are exact within their range',
 'For finite values whose magnitude is below 2^63, format_floating_point yields sign, integral digits and the leading fraction digits of the exact value truncated to the place limit (exactly that many places when the limit is exact, at most that many when it is an upper limit), with the chosen radix character and separators, and never a dangling radix character (the digits are those of the exact value wherever multiplying its fraction by the radix is exact in the type, otherwise the text is within rounding of the value). parse_floating_point returns the value the text denotes, negative fractions included (exact in binary radices, otherwise within a few units of rounding), enforces the place limits and rejects malformed text with parse_failed.',
 ['inputs','configurations'],'for every finite value below 2^63 with a fraction of at most 47 bits, every format and every text of the grammar',
 'The tests use a few decimals; sign, truncation, place limits and separators combine without bound.',
 [U+'formatters.ipp',U+'parsers.ipp',U+'formats.cpp'],[('integral part through format_integer, fraction by repeated multiplication',U+'formatters.ipp'),('integral part through parse_integer, fraction digit by digit',U+'parsers.ipp')],obs=['returned string / value / parse_failed'])
p('C09','Formats keep what they are given and bool text round-trips',
 'format_bool yields the format\'s true or false string in the target encoding, and parse_bool returns true or false exactly for those two strings in any encoding and otherwise throws parse_failed (empty_input or neither_boolean). Every attribute set on an integer, floating point or bool format, by constructor or setter, is the one read back and no other attribute changes, and a radix outside 2..36 is refused with invalid_radix leaving the format as it was.',
 ['inputs','histories','configurations'],'for every pair of bool strings, every input text, and every history of setter calls',
 'The tests set each attribute once; interference between attributes over histories and rejected values is not covered.',
 [U+'formats.cpp',U+'parsers.ipp',U+'formatters.ipp'],[('accessors with radix validation',U+'formats.cpp'),('parse_bool / format_bool',U+'parsers.ipp')],
 state=[('format attributes','radix, sign status, separator, radix character, place limit and count, bool strings',UI+'formats.hpp')],obs=['getters, results, exceptions'])
p('C10','Buffered reading delivers exactly the resource\'s bytes in order',
 'Whatever the buffer capacity (including none) and however the reads are split, successive reads from a file or container resource return exactly the bytes of the resource from the current position on, each once and in order. A read returns fewer bytes than asked only when the resource ends, writes nothing outside the returned bytes of the caller\'s array, and reading never changes the resource\'s content.',
 ['histories','configurations'],'for every content, buffer capacity, kind of resource and sequence of read sizes and seeks',
 'The tests read small fixed amounts with one or two capacities; the interplay of partially consumed buffer, refill and direct reads depends on the history of sizes relative to the capacity.',
 [I+'input_resource.cpp',I+'io_buffer.cpp',I+'impl/ctr_essence.ipp',I+'impl/unix_like/unix_like_file.cpp'],
 [('read_buffered / fill / lean retrieval',I+'input_resource.cpp'),('read_raw with last fill amount',I+'impl/unix_like/unix_like_file.cpp'),('read_raw for containers',I+'impl/ctr_essence.ipp')],
 state=[('buffer window','position, size and read-dirty flag of the buffer',I+'io_buffer.cpp'),('last fill amount','how far the raw position lags behind the buffer',I+'impl/ctr_essence.ipp')],
 obs=['bytes and count returned by read'])
p('C11','Buffered writing stores every byte once, in order, where written',
 'Whatever the buffer capacity and however the writes are split, after a flush (or, for files, a close or destruction) the resource holds exactly the bytes written, each once, in order and at the positions they were written at, and every other byte is unchanged; a gap left by seeking past the end is filled with zero bytes. Before a flush the resource holds some prefix of the writes applied in order, never anything else.',
 ['histories','configurations'],'for every initial content, buffer capacity, kind of resource and sequence of writes, seeks and flushes',
 'The tests write a short text once; boundary cases depend on write sizes relative to the space left in the buffer over a history.',
 [I+'output_resource.cpp',I+'io_buffer.cpp',I+'impl/ctr_essence.ipp',I+'impl/unix_like/unix_like_file.cpp'],
 [('write_buffered / flush',I+'output_resource.cpp'),('write_raw',I+'impl/unix_like/unix_like_file.cpp')],
 state=[('pending bytes','bytes accepted and not yet in the resource',I+'io_buffer.cpp')],obs=['content of file or container after each step','returned count'])
p('C12','Mixed reads, writes and seeks behave like one array of bytes',
 'An I/O resource (read-and-write file, opaque or transparent container) behaves, for every interleaving of read, write, seek and flush and every buffer capacity, exactly like an unbuffered array of bytes with one position: a read returns what was last written or was there before, a write lands at the position, and both advance it. What somebody else changes in the content while nothing is buffered (through the container, or another handle of the file) is what is read from then on. A copy of an owning container resource starts with the same content and position and is independent of the original from then on. A user-defined resource derived from io_resource, which cannot seek, keeps its two directions apart: however reads and writes take turns, every byte is read once and in order and every byte written arrives once and in order.',
 ['histories','configurations'],'for every interleaving of reads, writes, seeks and flushes over every resource kind, element size and capacity',
 'The tests never mix reads and writes through a buffer; the shared buffer makes every interleaving a case of its own.',
 [I+'seekable_io_resource.ipp',I+'input_resource.cpp',I+'output_resource.cpp',I+'impl/ctr_essence.ipp',I+'opaque_container_io_resource.ipp',I+'io_resource.cpp'],
 [('switching the shared buffer between reading and writing',I+'seekable_io_resource.ipp'),('container element/byte arithmetic',I+'impl/ctr_essence.ipp')],
 state=[('shared buffer','one buffer used for reading and for writing',II+'transfer_resource.hpp')],obs=['read results, content, positions'])
p('C13','Positions reported and set always agree with the bytes transferred',
 'At any time get_position is the number of bytes from the start of the resource to where the next read or write takes place, buffered or not; set_position relative to the beginning, the current position or the end, and go_forward/go_back, move it to exactly the requested byte (never below zero) whatever is buffered, and flush unwritten bytes first. is_at_end is true exactly when the position is at or past the end of the content including bytes not yet flushed.',
 ['histories','configurations'],'for every history of reads, writes and seeks, every capacity, element size and resource kind',
 'The tests seek from a fresh or fully consumed state; relative seeks with a partially consumed buffer depend on the history.',
 [I+'seekable_transfer_resource.ipp',I+'seekable_input_resource.ipp',I+'seekable_output_resource.ipp',I+'seekable_io_resource.ipp',I+'file.cpp',I+'impl/unix_like/unix_like_file.cpp',I+'impl/ctr_essence.ipp'],
 [('set_position over set_position_raw',I+'seekable_io_resource.ipp'),('get_position = raw position + buffer position',I+'impl/unix_like/unix_like_file.cpp'),('is_at_end',I+'file.cpp')],
 state=[('logical position','byte offset of the next transfer',II+'seekable_transfer_resource.hpp')],obs=['get_position, is_at_end after every operation'])
p('C14','Files open, reopen, move and close as their mode says',
 'open succeeds exactly when the file can be opened in the requested mode, creates a missing file only with if_not_there::create and never truncates or alters an existing one, starts at position zero, and records the mode; reading a write-only file or writing a read-only one throws invalid_access_mode and changes nothing. close, reopening, destruction and move assignment flush what was written and release the descriptor exactly once, moving a file transfers its descriptor, mode, position and buffered data to the new object and leaves the old one closed (moving it onto itself changes nothing), and no descriptor leaks or is closed twice.',
 ['histories','configurations'],'for every history of open, close, move, read, write and destroy over several file objects, modes and existing or missing files',
 'The tests open one file at a time and never move one; lifetime errors need particular histories over several objects.',
 [I+'impl/unix_like/unix_like_file.cpp',I+'file.cpp',II+'impl/unix_like/unix_like_file.hpp',I+'io_buffer.cpp'],
 [('open/close/flush',I+'impl/unix_like/unix_like_file.cpp'),('move operations',I+'impl/unix_like/unix_like_file.cpp'),('access mode checks',I+'file.cpp')],
 state=[('descriptor','the open descriptor owned by the object, if any',II+'impl/unix_like/unix_like_file.hpp')],obs=['is_open, get_access_mode, exceptions, recorded open/close system calls, file contents'])
p('C15','Partial and interrupted system calls never lose or repeat data',
 'When the operating system transfers fewer bytes than asked for or interrupts a read or write (EINTR), file and standard stream resources still deliver exactly the bytes of the file in order and store exactly the bytes written, each once. When a call fails for good, the count returned by an unbuffered transfer is exactly the number of bytes actually transferred and nothing outside them is touched. A user-defined resource derived from the base classes of the library may likewise move fewer bytes in one transfer than asked: nothing in a buffer is then lost, repeated or misplaced.',
 ['fault_sequences','histories'],'for every sequence of short counts, interruptions and failures injected into the read and write calls',
 'The tests run on a local file system where calls never come back short or interrupted.',
 [I+'impl/unix_like/unix_like_file.cpp',I+'impl/unix_like/unix_like_uin.cpp',I+'impl/unix_like/unix_like_uout.cpp',I+'output_resource.cpp'],
 [('retry loops around read and write',I+'impl/unix_like/unix_like_file.cpp'),('flush continues after a short write',I+'output_resource.cpp')],obs=['bytes at the interposed system calls, returned data and counts'])
p('C16','Text output encodes everything it is given exactly',
 'A text output stream writes the given code points, strings and string views of any encoding, booleans and numbers, in its encoding form and endianness, as exactly the canonical encoding of the same text, in order, with nothing added or dropped; write_bom writes U+FEFF in that encoding. Changing the encoding form or endianness affects only what is written afterwards, and an invalid code point is refused with invalid_code_point and writes nothing. A copied or moved stream goes on in the same resource, form and endianness, and bytes written through the stream as such are stored as they are, in their place.',
 ['inputs','configurations','histories'],'for every text, source type, encoding form, endianness and sequence of outputs and setting changes',
 'The tests write a few literals in some of the 6 encoding/endianness combinations; source type, target form and endianness multiply.',
 [I+'text_output_stream.ipp',I+'output_stream.ipp',I+'general.cpp'],
 [('operator << per source type and form',I+'text_output_stream.ipp'),('reverse_write for non-native endianness',I+'output_stream.ipp')],
 state=[('encoding form, endianness','current output encoding',II+'text_output_stream.hpp')],obs=['bytes in the resource'])
p('C17','Text input decodes exactly and detects the byte order mark',
 'A text input stream turns the bytes of its resource in its encoding form and endianness into exactly the code points they encode; read_bom consumes exactly one code point, and if it is a byte order mark in either byte order (UTF-16, UTF-32) it sets the endianness accordingly and returns U+FEFF, otherwise returns the code point in the current endianness and changes nothing. Ill-formed input throws invalid_unicode_encoding and input that ends inside a code point throws read_past_end, never yielding a code point. A copied or moved stream goes on where the original was, in the same form and endianness, and bytes read through the stream as such are the next bytes of the resource.',
 ['inputs','configurations'],'for every byte sequence, encoding form, endianness and buffer capacity',
 'The tests decode a few files; malformed and truncated input and BOM detection range over all byte sequences.',
 [I+'text_input_stream.ipp',I+'input_stream.ipp',I+'general.cpp'],
 [('read_*_code_point',I+'text_input_stream.ipp'),('read_utf16_bom / read_utf32_bom',I+'text_input_stream.ipp')],
 state=[('encoding form, endianness','current input encoding',II+'text_input_stream.hpp')],obs=['code points, exceptions, get_endianness, position'])
p('C18','Words, lines, whole texts and numbers are extracted exactly',
 'Reading a string skips leading whitespace and yields the characters up to the next whitespace character, which is consumed; read_line yields the characters up to the next line feed, which is consumed and not stored; read_all yields the rest of the text; the append variants keep the previous content of the target and the others replace it. A carriage return directly before a line feed is dropped, every other character is delivered unchanged, and reading a bool or number reads one word and parses it in the default format, with parse_failed for anything else.',
 ['inputs','histories'],'for every text and every sequence of extraction operations on it, in every encoding form and target string type',
 'The tests extract a few words from fixed files; sequences of operations over texts with every arrangement of whitespace and line ends are unbounded.',
 [I+'text_input_stream.ipp',I+'text_io_stream.ipp'],
 [('operator >> and read_line/read_all loops',I+'text_input_stream.ipp'),('read_filtered_code_point',I+'text_input_stream.ipp')],
 state=[('stream position','code points consumed so far',I+'text_input_stream.ipp')],obs=['targets, exceptions, remaining input'])
p('C19','Data streams store values byte for byte in the chosen endianness',
 'A data output stream writes every fundamental value as exactly its object representation, in memory order when the stream\'s endianness is the native one and reversed when it is not, and a data input stream reads it back bit for bit in the same endianness; set_endianness affects only later values. The source value is never modified, and reading past the end throws read_past_end without changing the target. A copied or moved stream goes on in the same resource and endianness; bytes transferred through the stream as such are those of the resource, and reverse_write stores them in reverse order.',
 ['inputs','histories','configurations'],'for every value of every fundamental type, both endiannesses and every sequence of operations',
 'The tests use an int and a double in the native byte order only.',
 [I+'data_output_stream.ipp',I+'data_input_stream.ipp',I+'data_io_stream.ipp',I+'input_stream.ipp',I+'output_stream.ipp',I+'general.cpp'],
 [('memcpy plus invert_endianness',I+'data_input_stream.ipp'),('reverse_write',I+'output_stream.ipp')],
 state=[('endianness','byte order of the stream',II+'input_stream.hpp')],obs=['bytes in the resource, values read'])
p('C20','Standard streams deliver all text in order, output before input',
 'Everything written to uout and uerr reaches the respective descriptor as UTF-8, complete, in order and once, at the latest when flushed, when uin is read (for uout) or when the program ends normally. Text read from uin is exactly the UTF-8 text of standard input in order whatever the sizes in which it arrives, and at the end of input read_past_end is thrown instead of inventing text.',
 ['histories','inputs','fault_sequences'],'for every history of writes, flushes and reads and every way the input arrives in pieces',
 'The automated tests do not touch the standard streams at all.',
 [I+'impl/unix_like/unix_like_uin.cpp',I+'impl/unix_like/unix_like_uout.cpp',I+'uio.cpp',I+'input_resource.cpp',I+'impl/common/common_uio.cpp'],
 [('tie of uin to uout',I+'input_resource.cpp'),('flush at destruction',I+'impl/unix_like/unix_like_uout.cpp')],
 state=[('pending output','text written and not yet flushed',I+'io_buffer.cpp')],obs=['bytes and order of system calls on descriptors 0, 1, 2'])
p('C21','The test module counts and reports every test truthfully',
 'run_tests runs every registered test in order, exactly once each, and returns the number of tests that returned false; what it prints (the start, stages and outcome of each test with its zero-padded number and name, the totals, and one line per failed test with the stage it failed on) is exactly what happened. Messages are popped in the order they were pushed, the empty message when there is none, and none survive the end of a test; dummy objects push exactly one message for each construction, copy, move and destruction and carry their value along.',
 ['histories','inputs'],'for every sequence of test outcomes, stage counts, message operations and dummy operations',
 'The suite only ever reports success through this module, so a module that hides failures would pass it.',
 [C+'test_module.ipp','api/include/cmp/core/test_module.hpp'],[('run_tests loop and counters',C+'test_module.ipp'),('message queue',C+'test_module.ipp'),('dummy special member functions',C+'test_module.ipp')],
 state=[('counters','successful, failed, current test and stage',C+'test_module.ipp'),('message queue','messages pushed and not popped',C+'test_module.ipp')],obs=['return value, printed report, popped messages'])
p('C22','Window events reach exactly the open window they are for',
 'Every key, resize and close event of a native window is delivered exactly once to the one window object that currently owns it, with the right kind, key and key text, after any history of opening, moving, closing, reopening and destroying windows, and never to a closed or destroyed object. A close request closes the window exactly when the handler leaves it accepted; opening an already open window is refused and a closed one can be opened again; a window has the title, size and mode it was opened with and the title set last; the application loop updates each open window once whenever no event is waiting, with the seconds since its previous update and since it was opened, and returns 0 when no window is left.',
 ['histories','schedules'],'for every history of window operations and events, including operations done inside event handlers and updates',
 'The graphical part has no automated tests at all.',
 [G+'impl/gtk/gtk_window.cpp',G+'impl/gtk/gtk_desktop_gui_application.cpp',G+'impl/common/common_window.cpp',G+'general.cpp',G+'key_event.cpp',G+'close_event.cpp'],
 [('window associations',G+'impl/gtk/gtk_window.cpp'),('event forwarding',G+'impl/gtk/gtk_window.cpp'),('run loop',G+'impl/gtk/gtk_desktop_gui_application.cpp')],
 state=[('window associations','native window to window object',G+'impl/gtk/gtk_window.cpp')],obs=['handler invocations, calls made to a recording stand-in of GTK'])
p('C23','The application object is reachable and keeps its arguments',
 'app() returns the application object constructed last, through which the exact argument count and argument vector given at construction and the copyright notice set last are read back; the default run returns 0 and an overridden run is the one called.',
 ['histories'],'for every argument vector and every history of settings',
 'There are no tests for the application object.',
 [C+'application.cpp','api/include/cmp/core/application.hpp'],[('instance pointer',C+'application.cpp')],obs=['app(), get_argc, get_argv, get_copyright_notice, run'])
p('C24','Core numeric helpers agree with arithmetic on every input',
 'count_digits returns the number of digits of the value in the radix (one for zero), for every value including the extremes of each integer type. cmp_equal is true exactly when two floating point values agree after both are cut off after the given number of decimal places (up to floating point error in the scaling), and cmp_not_equal is its negation. invert_endianness reverses exactly the given bytes and get_opposite_endianness exchanges little and big.',
 ['inputs'],'for every argument value and type',
 'The tests use a few small values; extremes and negative values are not covered.',
 [C+'general.ipp',I+'general.cpp',I+'general.ipp'],[('arithmetic loops',C+'general.ipp'),('byte reversal',I+'general.cpp')],obs=['returned values'])
import sys
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
