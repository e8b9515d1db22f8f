#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the source of truth for the statements is this file)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
PR='mbus/mbus-protocol.c'; AX='mbus/mbus-protocol-aux.c'; SE='mbus/mbus-serial.c'; TC='mbus/mbus-tcp.c'
T110="The 110 stable tests parse ~100 recorded telegrams end to end and compare the XML; "
p('P01','Telegram acceptance is exact',
 "A byte sequence is accepted as a complete telegram exactly when it is one of the M-Bus link-layer formats (E5h acknowledge, short, control, long) with matching start and stop bytes, both length bytes equal and consistent with the size, a defined control code for its format, and a correct checksum. The reported control, address, control-information and user data fields are exactly the bytes of the telegram. Everything else is rejected without success being reported.",
 ['inputs'],"every byte sequence, in particular every single-byte mutation, truncation and extension of every valid telegram of every data length 0..252",
 T110+"none mutates, truncates or extends a link-layer frame systematically.",
 [PR],[('mbus_parse',PR),('mbus_frame_verify',PR),('calc_checksum / calc_length',PR)],['return value of mbus_parse and frame fields'])
p('P02','Incomplete telegrams report exactly how many bytes are missing',
 "For every proper prefix of a telegram the parser answers with a positive number of further bytes that never exceeds what is still missing of that telegram, and feeding exactly the requested number of bytes again and again ends at acceptance of exactly the telegram, never past its end. The answer is zero only for complete telegrams.",
 ['inputs','histories'],"every telegram format and length 0..252 and every prefix of it; every sequence of request/feed steps",
 T110+"the incremental contract is only exercised by real sockets, which tests do not open.",
 [PR],[('mbus_parse need-more results',PR)],['positive return values of mbus_parse'])
p('P03','Packing and parsing telegrams are inverse to each other',
 "Every well-formed telegram value packs into the byte sequence prescribed by the standard (length and checksum computed by the library), needs exactly its own size as buffer space, is refused for any smaller buffer without touching memory outside the buffer, and parses back into the same value. Malformed or absent telegrams are refused.",
 ['inputs'],"all telegram types, controls, addresses, control-information codes, data lengths 0..252 and buffer sizes 0..size+1",
 "No test packs a frame at all; only parsing is run.",
 [PR],[('mbus_frame_pack',PR),('mbus_frame_calc_checksum/length',PR)],['packed bytes, return value'])
p('P04','Reception does not depend on how the line chunks the bytes',
 "For every telegram on the line, receiving yields the same verdict and the same telegram however the operating system splits the bytes into reads, on serial and TCP alike; it never consumes a byte beyond the end of the telegram, and the receive event observes exactly the received bytes. The next receive therefore starts at the next telegram.",
 ['inputs','schedules'],"all telegram formats, all splits of short ones into reads, all splits with bounded cut points for long ones, sequences of back-to-back telegrams, both transports",
 "Chunking is chosen by the kernel and peers; no test opens a transport.",
 [SE,TC],[('mbus_serial_recv_frame',SE),('mbus_tcp_recv_frame',TC)],['mbus_recv_frame result, bytes left in the stream, recv_event callback'])
p('P05','Line faults during reception are classified correctly',
 "While receiving, silence before the first byte is reported as time-out, a read error as error, a closed connection as reset, and garbage or (on the serial line) a telegram that stops midway as invalid; an interrupted TCP read is retried. Success is reported only when a complete valid telegram was received, and no fault is ever turned into success or into an endless wait.",
 ['fault_sequences','schedules'],"every sequence of up to the stated number of read outcomes (bytes, nothing, EINTR, EAGAIN, EOF, hard error) over valid, truncated and garbage streams, on both transports",
 "Faults never occur in the tests; the transports are not run.",
 [SE,TC,AX],[('mbus_serial_recv_frame',SE),('mbus_tcp_recv_frame',TC),('mbus_recv_frame',AX)],['mbus_recv_frame result'])
p('P06','A telegram is sent whole, once, and failures are reported',
 "Sending hands exactly the packed telegram to the transport; if the transport takes fewer bytes, refuses or the telegram cannot be packed, the caller gets an error. The send event sees exactly the bytes that were sent, and only after a successful transmission. All this for every transmission, whatever was sent on the connection before.",
 ['inputs','histories','fault_sequences'],"all telegram kinds incl. unpackable ones, and every outcome of the write (full, every short count, error), on both transports",
 "No test sends anything.",
 [SE,TC],[('mbus_serial_send_frame',SE),('mbus_tcp_send_frame',TC)],['bytes written, return value, send_event callback'])
p('P07','Master commands put the standard telegram on the line',
 "Each command (initialise, request data, application reset, switch baud rate, set primary address, selecting, user data, ping) transmits exactly the telegram the M-Bus standard and the header document prescribe for its arguments, whatever was sent, refused or received on the connection before. Arguments outside the documented domain are refused and nothing is transmitted.",
 ['inputs','histories'],"all histories of up to 4 operations on a connection; all primary addresses -1..256, all sub-codes, all supported and unsupported baud rates, all payload sizes",
 "No test issues a command.",
 [AX,PR],[('mbus_send_*',AX),('mbus_set_primary_address',AX)],['bytes written'])
p('P08','A secondary address selects exactly the meter it names',
 "The secondary address string reported for a meter, turned back into a selection telegram, carries the very identification, manufacturer, version and medium bytes of that meter's header, for every header; wildcard digits F select any digit in that position only. Malformed masks are refused.",
 ['inputs'],"all identification digits/bytes position by position and pairwise, all manufacturer/version/medium bytes; all single-character mutations of a mask",
 "Addresses are never packed by a test; only two hex strings occur in recorded frames.",
 [PR,AX],[('mbus_frame_get_secondary_address',PR),('mbus_frame_select_secondary_pack',PR),('mbus_is_secondary_address',AX)],['returned string; packed select frame'])
p('P09','Echoed own telegrams are removed, never the answer',
 "With purging of master-to-slave telegrams enabled (the default), a line that echoes the master's own telegram behaves to the caller exactly like a line without echo; a slave's answer is never discarded unless purging of slave telegrams was requested, and without any purging every telegram is delivered. A failed reception is reported as what it is, whatever bytes preceded the failure.",
 ['histories','configurations','fault_sequences'],"all sequences up to 4 line items (each telegram kind and direction, garbage, truncated telegrams, silence, errors, EOF) under every purge setting and both transports",
 "No line exists in the tests.",
 [AX],[('mbus_recv_frame purge loop',AX)],['mbus_recv_frame result and frame'])
p('P10','Multi-telegram readout is complete, ordered and bounded',
 "Reading a meter collects its telegrams in order, each exactly once, toggling the frame count bit only after an accepted telegram, repeating a request at most the configured number of times per failure, and stops at the last telegram or at the requested maximum number (0 meaning no limit). It succeeds only if every collected telegram was received intact; otherwise it reports failure. Each collected telegram bears the time of its reception. Nothing of a damaged answer stays on the line to be taken for an answer to a later exchange; a later readout on the same connection starts anew.",
 ['histories','fault_sequences','configurations'],"all response histories (good/more-follows/last/timeout/garbage/checksum error/error telegram/ack/link error) up to the stated depth, maximum counts 0..4, retry limits 0..3",
 "The exchange is never run in tests.",
 [AX],[('mbus_sendrecv_request',AX)],['return value, requests written, chained frames'])
p('P11','Selection and probing give the true verdict',
 "Selecting or probing a secondary address reports one meter, nothing, collision or link error exactly according to what the line answered; a found meter's address is exactly the one in its answer, and is reported once. The number of transmissions never exceeds the configured retry limit. Every selection and probe is made on the line, whatever was selected on the connection before.",
 ['histories','fault_sequences','configurations'],"all answer histories (ack, two acks, garbage, silence, telegrams of every kind, trailing bytes, echo, link errors) up to the retry depth, retry limits 0..2",
 "Never run in tests.",
 [AX],[('mbus_select_secondary_address',AX),('mbus_probe_secondary_address',AX)],['return value, matching address, found_event, bytes written'])
p('P12','A secondary scan finds exactly the meters present',
 "On a bus with meters of pairwise distinct decimal identification numbers, the scan of a mask reports every meter matching the mask exactly once and no other, and terminates; if the link fails or cannot be set up, or memory runs out, the scan reports an error instead of a silently incomplete result. Meters that share an identification number cannot always be told apart, but they neither keep the scan from ending, nor make it report anything false or twice, nor hide the other meters. Acknowledges that get lost no more often than the option for search retries allows, or that get disturbed while digits are still open, hide no meter. A scan-progress callback is told every mask before it is probed, and changes nothing.",
 ['configurations','fault_sequences','histories'],"all sets of up to the stated number of meters from a population whose identifications differ in every position, all wildcard masks of the population, both collision behaviours (garbage / overlapping acknowledge), a link fault at every transmission, every acknowledge lost or disturbed",
 "No bus simulation exists in the tests.",
 [AX],[('mbus_scan_2nd_address_range',AX)],['found_event set, return value'])
p('P13','A primary scan lists exactly the answering addresses',
 "The serial and TCP scan programs contact every address of the documented range, repeat as configured, print a found line exactly for addresses that acknowledged, a collision line exactly for addresses with colliding answers, and nothing for silent ones. When sending to an address or receiving from it fails, the program names no device there, says so and ends with a failure status. So it does when the line cannot be set up as asked (nothing is transmitted then) or memory runs out.",
 ['configurations','histories'],"every single responding address, every pair at stated bounds, all answer kinds, retry settings 0..2, both programs",
 "The programs are never executed by a test.",
 ['bin/mbus-serial-scan.c','bin/mbus-tcp-scan.c',AX],[('main scan loop','bin/mbus-serial-scan.c'),('main scan loop','bin/mbus-tcp-scan.c')],['stdout, bytes on the wire'])
p('P14','Variable telegrams are cut into the right records',
 "A variable-format telegram is decomposed into exactly the header fields and data records that the standard's record grammar (fillers, extension chains, plain-text units, variable length, manufacturer block, more-follows marker) defines, in order, with exactly their data bytes. A telegram that violates the grammar or ends inside a record is rejected, never truncated or padded silently.",
 ['inputs'],"all record-level byte strings up to the stated length over the full alphabet of structurally distinct bytes, all DIF bytes, all LVAR bytes, all custom unit lengths, all extension chain lengths, all record sequences up to depth 3, every truncation",
 T110+"they contain a few dozen DIF/VIF combinations.",
 [PR],[('mbus_data_variable_parse',PR)],['parsed records'])
p('P15','Numeric values are decoded exactly',
 "Integer, real and BCD record data decode to the number the standard defines (little endian two's complement, IEEE single precision, packed BCD with sign digit) for every width and bit pattern, both in the raw and in the normalised view.",
 ['inputs'],"all 1- and 2-byte patterns, all combinations of boundary bytes for 3..8-byte fields, all BCD digits in all positions, exhaustive single-byte variation",
 T110+"they contain a few hundred values.",
 [PR,AX],[('mbus_data_int_decode etc.',PR),('mbus_data_variable_value_decode / mbus_variable_value_decode',PR+':2280-2460, '+AX)],['Value elements; decode results'])
p('P16','Dates and times are decoded exactly',
 "Type F, G and I time stamps are reported with exactly the year, month, day, hour, minute and second their bits encode; invalid-flagged stamps and other data are never presented as a valid date.",
 ['inputs'],"all 65536 type G values, all type F values field-exhaustively with all field pairs, type I likewise, with every VIF that declares a date",
 T110+"only a few tens of dates.",
 [PR,AX],[('mbus_data_tm_decode',PR),('date branches of value decoding',PR)],['Value elements'])
p('P17','Storage number, tariff, device and function come from the right bits',
 "For every record the reported storage number, tariff, device and function are exactly those encoded in its DIF/DIFE chain, for every chain up to the permitted length; without an extension byte no tariff or device is reported.",
 ['inputs'],"all chains of up to 10 extension bytes over boundary bytes, exhaustive single DIFE and pairs",
 T110+"the longest chain in them has three extension bytes.",
 [PR],[('mbus_data_record_storage_number etc.',PR)],['StorageNumber/Tariff/Device/Function elements'])
p('P18','Raw and normalised views describe the same quantity',
 "For every value information code the unit, quantity and decimal scale reported in the raw view and in the normalised view denote the same physical quantity of the standard's table, so the normalised number equals the raw number times its power of ten in the unit's base. No defined code is attributed another quantity's unit or scale.",
 ['inputs'],"all 256 primary codes, all 2x256 first-extension codes, all combinable extension codes, crossed with data types",
 T110+"they contain a small share of the codes.",
 [PR,AX],[('vif_table, fixed_table',AX),('mbus_vif_unit_lookup / vib_unit_lookup',PR)],['Unit/Quantity/Value elements of raw and normalised XML'])
p('P19','Fixed-format telegrams are decoded exactly',
 "Fixed-format telegrams are accepted only with their exact size and report identification, access number, status, medium, both counters (BCD or binary), their units, scales and actual/stored function exactly as the standard's tables define; the raw and the normalised view agree.",
 ['inputs'],"all status bytes, all unit/medium bytes of both counters, boundary and exhaustive per-byte counter values, all sizes 0..32",
 "One recorded fixed telegram exists.",
 [PR,AX],[('mbus_data_fixed_parse',PR),('mbus_data_fixed_xml / normalized',PR+':4200-4330, '+AX),('mbus_data_fixed_unit/medium',PR)],['XML of fixed telegrams'])
p('P20','XML output is well formed and says what the telegram says',
 "Every XML document produced is well formed, contains exactly one record element per data record in order, and every header field, record attribute and value in it is the escaped rendering of what the telegram carries; no byte of meter data can break out of its element.",
 ['inputs'],"all bytes in every text position (custom units, string values), all header bytes, all record types; record sequences up to depth 3, raw and normalised, single and multi telegram",
 T110+"hostile bytes in text positions do not occur.",
 [PR,AX],[('mbus_str_xml_encode',PR),('mbus_data_variable_xml etc.',PR),('normalised xml',AX)],['XML text'])
p('P21','XML output is complete however large the telegram or chain',
 "XML rendering never truncates, overruns or drops records, however many records and telegrams and however long their texts; a multi-telegram document holds all records of all telegrams in order with consecutive numbering.",
 ['inputs','configurations'],"all record counts up to the maximum per telegram, with minimal and maximal text expansion at every alignment of the output buffer growth, chains of 1..4 telegrams of mixed kinds",
 T110+"buffer growth edges depend on exact sizes.",
 [PR,AX],[('buffer growth in mbus_data_variable_xml / mbus_frame_xml',PR),('mbus_data_variable_xml_normalized',AX)],['XML text, sanitizer'])
p('P22','Decoding never touches memory it does not own',
 "For every byte sequence handed to the parser and every decoder and printer applied to the result, the library stays within its memory, performs no undefined arithmetic, terminates, and releases what it allocated.",
 ['inputs'],"all byte strings over a structural alphabet up to the stated depth, all single- and double-byte mutations of a telegram corpus spanning every format and every length limit",
 T110+"with no sanitizer and no mutation.",
 [PR,AX],[('parsers, decoders, printers',PR)],['sanitizer verdict, allocation balance'])
p('P23','Running out of memory is an error, never corruption',
 "If any allocation fails during any operation, the operation reports failure (or completes correctly), the library neither crashes nor leaks nor leaves a half-done result presented as success, and it works again once memory is available. Whatever its outcome (completed, refused, failed on the line, out of memory), an operation releases all the memory it took for itself.",
 ['fault_sequences'],"for every operation of the interface: every single failing allocation and all failing from k on",
 "No allocation fails in tests.",
 [PR,AX,SE,TC],[('allocation sites',PR+', '+AX)],['return values, allocation balance, sanitizer'])
p('P24','A result depends only on its own telegram',
 "Decoding a telegram gives the same result whatever was decoded, received or rejected before, whether or not a telegram object is reused, whatever uninitialised memory happens to hold, and whether or not debugging output is switched on.",
 ['histories','inputs'],"all ordered sequences up to depth 3 over operations on a corpus spanning all kinds of accepted and rejected telegrams, with objects fresh or reused and all memory fill patterns",
 "Every test process decodes a single telegram.",
 [PR,AX],[('static buffers and reused objects',PR)],['XML/decoded results compared between histories'])
p('P25','Connections have a clean life cycle',
 "Creating, connecting, using, disconnecting, reconnecting and freeing a connection in any order the interface allows acquires and releases each resource exactly once, uses only the connection it opened, reports its events to its own listeners, and reports every failing step as an error, leaving the object reusable or freeable. Operations on an unconnected connection fail cleanly.",
 ['histories','fault_sequences','configurations'],"all operation sequences up to the stated depth with every environment call failing at every point (bounded number of faults), both transports",
 "No test opens a connection.",
 [SE,TC,AX],[('mbus_context_*',AX),('mbus_serial_connect/disconnect',SE),('mbus_tcp_connect/disconnect',TC)],['open/close/alloc balance, return values'])
p('P26','Options take effect exactly as documented',
 "Each option accepts exactly its documented values, takes effect on the behaviour it names and on nothing else, whether set before connecting or while connected; it keeps the value over reconnecting, and a refused value leaves the connection as it was. Connections have their options each for itself.",
 ['histories','configurations'],"all option ids -1..5 with all values -2..12, all sequences up to depth 3, observed through the number of transmissions and the purging behaviour",
 "Options are never set in tests.",
 [AX],[('mbus_context_set_option',AX)],['behaviour of later exchanges'])
p('P27','Hex input is read exactly or refused',
 "Hex text is converted to exactly the bytes it spells, in either case and with the documented separators, never beyond the given buffer; text that is not pairs of hex digits is never turned into bytes it does not spell.",
 ['inputs'],"all strings up to length 6 over a class-complete alphabet incl. signs, prefixes, separators and non-hex letters; all buffer sizes",
 "Test telegrams are well-formed hex.",
 [PR,'bin/mbus-tcp-raw-send.c'],[('mbus_hex2bin',PR),('mbus_hex2bin use in raw-send','bin/mbus-tcp-raw-send.c')],['returned bytes and count'])
p('P28','Value encoders and decoders are inverse to each other',
 "Integers, BCD numbers and manufacturer codes written by the library's encoders decode to the same value, for every value that fits the width; manufacturer codes follow the three-letter rule and everything outside it is refused.",
 ['inputs'],"all 17576 three-letter codes and all strings up to length 4 over a boundary alphabet; all 16-bit patterns; all values of 1 and 2 bytes, boundary values of 3..8 bytes",
 "Encoders are not run in tests.",
 [PR],[('mbus_data_manufacturer_encode / mbus_decode_manufacturer',PR),('mbus_data_bcd_encode/decode, int_encode/decode',PR)],['encoded bytes, decoded values'])
p('P29','Rebuilding a telegram from its decoded form gives the same telegram',
 "Packing the decoded form of an accepted telegram back yields exactly the user data it was decoded from, for every fixed and variable telegram and every application error telegram with one code byte, except for filler bytes, which carry no information; a decoded form that does not fit into a telegram is refused.",
 ['inputs'],"all record structures of the variable-format grammar up to depth 3, all fixed telegrams field by field, maximal sizes",
 "Internal packing is not run in tests.",
 [PR],[('mbus_frame_internal_pack',PR)],['data of the repacked frame'])
p('P30','The serial line is configured as M-Bus demands',
 "Opening a serial line always configures 8 data bits, even parity, one stop bit, raw input and 2400 baud with a finite response time-out; setting a baud rate applies exactly that rate in both directions with a finite time-out that never shrinks below the standard's response time for that rate, and unsupported rates are refused leaving the line unchanged. Each line keeps its own setting, and opening a line anew starts from the defaults.",
 ['inputs','configurations'],"all rates in -1..115200 near supported ones and all supported ones, in all orders of up to 3 changes, with failing system calls",
 "No serial line in tests.",
 [SE],[('mbus_serial_connect',SE),('mbus_serial_set_baudrate',SE)],['termios given to the system'])
p('P31','Readout programs report the meter or fail',
 "The readout programs print the XML of exactly the meter's answer and exit successfully if the line delivered it, and exit with an error without printing a document otherwise; the request goes to the address that was asked for, and a text that is neither a secondary address nor a number from 0 to 255 is refused without a request to any meter. The raw-send program transmits exactly the telegram whose hex text it was given, after selecting the meter asked for, and exits successfully exactly if a telegram came back; a text that is no telegram is never transmitted.",
 ['configurations','histories','fault_sequences'],"all four readout programs and raw send, address forms, options, and answer histories up to the stated depth",
 "The programs are never executed by a test.",
 ['bin/mbus-serial-request-data.c','bin/mbus-tcp-request-data.c','bin/mbus-serial-request-data-multi-reply.c','bin/mbus-tcp-request-data-multi-reply.c','bin/mbus-tcp-raw-send.c'],[('main','bin/*.c')],['stdout, exit status, bytes on the wire'])
p('P32','Configuration programs act only on the addressed meter and confirm',
 "The set-address, select, baud-rate and reset programs transmit the command for the meter asked for and exit successfully with their success line exactly if the meter confirmed (for select: acknowledged the selection and answered the request with a telegram that carries its secondary address, which is reported); any other reply, silence or failure ends with an error status. Address, rate and subcode texts that name none are refused without a command to any meter, and the address change is refused when the new address is outside 0..250 or something already answers there.",
 ['configurations','histories','fault_sequences'],"all five programs, every primary addresses, address forms, and answer histories up to the stated depth",
 "The programs are never executed by a test.",
 ['bin/mbus-serial-set-address.c','bin/mbus-serial-switch-baudrate.c','bin/mbus-serial-select-secondary.c','bin/mbus-tcp-select-secondary.c','bin/mbus-tcp-application-reset.c'],[('main','bin/*.c')],['stdout, exit status, bytes on the wire'])
p('P33','Meter header and error telegrams are reported faithfully',
 "The meter header of a variable telegram (identification, manufacturer letters, version, medium, access number, status, signature) and the code of an application error telegram are reported exactly as received for every byte value; a medium or error is named as the standard names it, and the product name of the library's list is given exactly to the meters (manufacturer, version or identification, medium) it is listed for.",
 ['inputs'],"all values of each header byte, all 65536 manufacturer codes, all error codes",
 T110+"a few dozen headers.",
 [PR],[('mbus_data_variable_header_xml',PR),('mbus_data_variable_medium_lookup',PR),('mbus_data_error_lookup / mbus_data_error_xml',PR),('mbus_data_product_name',PR)],['SlaveInformation elements'])

p('P34','Reading a slave addresses that slave only',
 "Reading by primary address requests exactly that address; reading by secondary address first selects and verifies exactly that meter and only then requests its data. The answer delivered is the telegram received for that request, bearing the time of its reception, and every failure on the way (invalid address, nothing or several meters selected, failed transmission or reception) is reported as failure. A reading depends on nothing of an earlier one on the same connection.",
 ['histories','fault_sequences','configurations'],"all addresses kinds (absent, primary, secondary, malformed), all selection verdicts and all answer kinds and link faults at every step",
 "Never run in tests.",
 [AX],[('mbus_read_slave',AX)],['return value, reply, bytes written'])
p('P35','Diagnostic dumps and traces show every telegram',
 "The human-readable dumps show what was received without truncation and without disturbing it, for every accepted telegram of every size and kind: the telegram dump and the line trace print every byte of every telegram, and the dump of decoded data prints every field of the meter header, and for every record its DIF, DIFE, VIF and VIFE bytes, its function and its data length or manufacturer data, for fixed data all its fields, for an application error its code. A program started with -d traces on standard error, in order and completely, every telegram it sends and everything it receives (except the beginning of a telegram that never arrives in full); without -d it traces nothing.",
 ['inputs','histories'],"all telegram kinds and data lengths 0..252, all byte values, all header fields; all programs, all answers to the telegrams they send",
 "Dumps are never compared in tests.",
 [PR],[('mbus_frame_print / mbus_frame_data_print / mbus_print_hex / event dumps',PR),('-d of the programs','bin/')],['text written to standard output','trace on standard error'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
