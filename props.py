PROPS = {}
def P(id, level, progs, rule, bounds, assume=(), exhaustive=True):
    PROPS[id] = dict(level=level, progs=progs, rule=rule, bounds=bounds, assume=list(assume), exhaustive=exhaustive)
U = ['util.c']
P('P01','exploration',[dict(src=['p01.c'],**{'with':U})],
  "byte strings enumerated by family (all short strings, all lengths x truncation/extension/mutation, header products); distinct = distinct byte strings that the reference grammar accepts or that are prefixes (rejected strings longer than 3 bytes are counted as trivial)",
  dict(quick="strings <=5 over 17 structural bytes; all lengths 0..252; all one-byte mutations at edges, one-bit mutations inside", thorough="strings <=6; all one-byte mutations everywhere"))
P('P02','exploration',[dict(src=['p02.c'],**{'with':U})],
  "every (telegram, starting prefix) is a request/feed history; distinct = distinct telegrams", dict(quick="all formats, all lengths 0..252, all prefixes, 3 data patterns", thorough="6 data patterns x 6 controls"))
P('P03','exploration',[dict(src=['p03.c'],**{'with':U})],
  "every telegram value x buffer size is packed, compared with the reference bytes and parsed back; distinct = distinct (type, fields, length, buffer)", dict(quick="all lengths x all buffer sizes; field products on a grid", thorough="finer grids"))
P('P04','model_checking',[dict(src=['p04.c'],**{'with':U})],
  "every execution = (transport, telegram sequence, split of the byte stream into reads); splits of short telegrams are all enumerated, of long ones all with a bounded number of short reads; the code under test is the implementation itself, so every explored execution is a validated trace", dict(quick="<=3 short reads per long telegram", thorough="<=4"))
P('P05','fault_enumeration',[dict(src=['p05.c'],**{'with':U})],
  "every (transport, byte stream, placement of up to 3 faults of 5 kinds), three receptions in a row; distinct = distinct such histories", dict(quick="21 streams, <=3 faults (2 on long streams)", thorough="finer positions, 3 faults everywhere"))
P('P06','model_checking',[dict(src=['p06.c'],**{'with':U})],
  "every (transport, telegram, write outcome), and every history of sends of nine kinds (three of which cannot be sent) with five write outcomes on one connection, from one object or several; the implementation itself is explored, so every execution is a validated trace; states = (transport, position, kind, outcome)", dict(quick="all lengths, all short counts; histories of 3 sends", thorough="histories of 4 sends"))
P('P09','model_checking',[dict(src=['p09.c'],**{'with':U})],
  "every history = (transport, purge option, sequence of line items); n+1 receptions each; states = (transport, option, verdict, echo removed, telegram kind); the implementation itself is explored, so every execution is a validated trace", dict(quick="<=4 of 14 items", thorough="<=5 items"))
P('P07','model_checking',[dict(src=['p07.c'],**{'with':U})], "every (transport, command, arguments), and every history of commands, refused commands and receptions on one connection (20 operations), each transmission compared with the standard's telegram; the implementation itself is explored, so every execution is a validated trace; states = (transport, previous operation, operation)", dict(quick="all addresses, sub-codes and sizes on grids that contain all values of each argument; histories of 3 operations", thorough="full products; histories of 4 operations"))
P('P08','exploration',[dict(src=['p08.c'],**{'with':U})], "every (meter header) and every mask; distinct = distinct headers/masks", dict(quick="all pairs of identification digits, all pairs of adjacent header bytes, all single-character mask mutations", thorough="all pairs of header bytes"))
P('P25','model_checking',[dict(src=['p25.c'],san='asan',**{'with':U})], "every history of life-cycle and use operations on one and on two connections (both transports, descriptor numbers from 0 and from 600, 1021 or 65534), with every system call of connecting and every allocation of creating failing as a bounded deviation; after every step descriptors, memory, destinations, the connection used, the events of either connection and the result are compared with a model of the life cycle; the implementation itself is explored, so every execution is a validated trace; states = (life-cycle state of both connections, operation, result)", dict(quick="18 operations: one connection to depth 5 (with up to 2 failing steps for two addresses, 1 for one and three); life cycle to depth 6 with 4 failing steps; two connections to depth 6 (7 operations, with up to 1 failing step), all pairs of uses; every port; names of every length and character", thorough="one connection to depth 6; depth 5 with 3 failing steps for two addresses, 2 for one and three; life cycle to depth 7 with 6 failing steps; two connections to depth 7, depth 6 with 2 failing steps"))
P('P26','model_checking',[dict(src=['p26.c'],**{'with':U})], "every sequence of option settings, made before connecting, while connected or with reconnections in between, then thirteen behavioural observations; every sequence of settings of two connections, then both observed; states = reachable option states of the reference model, each validated against the implementation", dict(quick="<=2 settings over 5 ids x 30 values, 3 settings over 3 x 8; two connections: <=2 settings over 3 x 5", thorough="3 settings over 3 x 30; two connections: 3 settings"))
P('P27','exploration',[dict(src=['p27.c'],**{'with':U})], "every string over the class alphabet x buffer size; distinct = distinct strings", dict(quick="<=5 of 17 characters, all character pairs", thorough="<=6 characters"))
P('P28','exploration',[dict(src=['p28.c'],**{'with':U})], "every value x width; distinct = distinct values/strings", dict(quick="all codes, all values of 1..3 BCD bytes and 1..2 integer bytes, boundaries beyond", thorough="all 24-bit integers"))
P('P30','model_checking',[dict(src=['p30.c'],**{'with':U})], "every sequence of up to three rate changes x failing system call x its reason, then reopening; every history of rate changes, refused rates and reopenings on two lines; states = line settings", dict(quick="8 rates, depth 3, one failing call; two lines to depth 3; all rates -10..40000; 460 TCP time-outs from microseconds to decades; both transports left blocking", thorough="two lines to depth 4"))
P('P10','model_checking',[dict(src=['p10.c'],**{'with':U})], "every (transport, address, maximum, retry limit) x every history of line answers (19 kinds) and send failures, explored with a backtracking scheduler on the implementation itself, which is compared with a reference master and a frame-count-bit meter after every transmission; states = (frame count bit, retry count, accepted telegrams, answer)", dict(quick="all histories of 4 transmissions; 20 transmissions with <=2 departures from 'more follows'; two readouts on one connection (same or another address, maximum and retry limit, with or without reconnecting), the first with every history of 3 transmissions; every address; answers torn into 1..400 pieces; telegrams of up to 113 records; readouts of up to 320 transmissions", thorough="5 transmissions; 40 with <=2, 14 with <=3 departures"))
P('P11','model_checking',[dict(src=['p11.c'],**{'with':U})], "every history of line answers (23 kinds, and send failures) to every transmission of a selection or probe, followed after every verdict that is no error by a second selection or probe (of the same or another mask) that must transmit exactly its telegrams and give the true verdict; explored on the implementation by a backtracking scheduler against an automaton of allowed verdicts; states = (transport, operation, selections made, answer, allowed verdicts)", dict(quick="all histories with retry limits 0..3; all header bytes; all mask digits at every position; all malformed characters; torn answers", thorough="retry limits 0..4"))
P('P34','model_checking',[dict(src=['p34.c'],**{'with':U})], "every history of line answers (23 kinds, and send failures) to every transmission of mbus_read_slave, alone and followed by a second reading on the same connection that must depend on nothing of the first, explored on the implementation by a backtracking scheduler; states = (transport, addressing, step, answer)", dict(quick="all primary addresses, all secondary digits at every position, all answer pairs; all ordered pairs of 8 addresses, with and without reconnecting in between (second reading: up to one departure)", thorough="same"))
P('P12','model_checking',[dict(src=['p12.c'],**{'with':U}), dict(src=['p12.c'],defs=['TOOL=1'],tool='mbus-serial-scan-secondary.c',label='serial program',**{'with':U}), dict(src=['p12.c'],defs=['TOOL=2'],tool='mbus-tcp-scan-secondary.c',label='tcp program',**{'with':U})], "every (transport, set of meters out of 14, mask out of 16, collision style, link failure kind x transmission index); the scan of the implementation itself runs on a simulated bus; states = (meters, found, link failed, result)", dict(quick="all sets of up to 3 meters, link failures at every transmission for 27 pairs, mixed collision styles with 2 departures; two scans of different buses on one connection, the first with or without a link failure; every acknowledge of two meters' scans lost up to 3 times and disturbed once; all sets of fixed digits with two meters that differ in one; programs: every option form x 10 destinations x 4 rates, every character that is no digit at every position of the mask", thorough="all sets of up to 4 meters, link failures for all pairs"))
P('P13','model_checking',[dict(src=['p13.c'],defs=['TOOL=1'],tool='mbus-serial-scan.c',label='serial program',**{'with':U}), dict(src=['p13.c'],defs=['TOOL=2'],tool='mbus-tcp-scan.c',label='tcp program',**{'with':U})], "every (address, answer kind out of 20, retries), every pair of neighbours' answers, every (retries, silent attempts), every transmission failing in three ways, every end of the connection, on the program itself running on a simulated bus in a forked child; states = (answer kind, gave up, line printed, retries)", dict(quick="all 251 addresses x 19 kinds; 5 positions of neighbours x 19 x 19 kinds; retries 0..9 x 0..10 silent attempts; every failing transmission (once, twice, from then on); end of the connection at every address; every option form, 10 destinations", thorough="same"))
P('P14','exploration',[dict(src=['p14.c'],**{'with':U})], "every user-data string of the enumerated families is decomposed by the implementation and by a reference grammar and compared field by field; distinct = distinct record areas; states = (verdict, records, more flag, last DIF)", dict(quick="all strings of <=5 of 18 structural bytes; all DIF x VIF; all chain lengths 0..12 x 0..12 x 16 data types x truncations; all variable/text/manufacturer lengths; telegrams up to the maximum size", thorough="strings of <=6 bytes"))
P('P15','exploration',[dict(src=['p15.c'],**{'with':U})], "every (type, function, bit pattern of the families) is carried by a telegram, decoded by the implementation in both views and compared with reference decoders; distinct = distinct (type, pattern)", dict(quick="all 8 and 16 bit patterns; byte pairs at all position pairs for the wider types; all float exponents x pairs of mantissa bits; all digit pairs", thorough="all 24 bit patterns; all byte pairs at all position pairs over 6 backgrounds"))
P('P16','exploration',[dict(src=['p16.c'],san='none',cflags=['-O2'],**{'with':U})], "every time stamp of the families is decoded (directly: all 2^32 stamps of type F, all 2^16 of type G, all byte triples of type I; through telegrams and both views: all pairs of bytes) and compared with a reference; distinct = distinct stamps through the views, plus blocks of 65536 direct decodings", dict(quick="4 backgrounds (2 for type I), every second/fourth pair", thorough="8 backgrounds (4 for type I), all pairs"))
P('P17','exploration',[dict(src=['p17.c'],**{'with':U})], "every (DIF, DIFE chain) of the families is carried by a telegram and decoded by the implementation in both views; distinct = distinct chains", dict(quick="all chains of <=2 extensions; value pairs at every position pair of chains up to 10 over 2 backgrounds; all on/off patterns of 10", thorough="all value pairs, 4 backgrounds"))
P('P18','exploration',[dict(src=['p18.c'],**{'with':U})], "every (value information code of the main, FD and FB table, extension, data type, value) is carried by a telegram and both views are compared with an independent transcription of the standard's tables; distinct = distinct such tuples", dict(quick="all codes x 3 extensions x 5 types x 9 values; all main codes x all 256 extensions; all text-unit corrections", thorough="more values; all 16 bit integers x all main codes"))
P('P19','exploration',[dict(src=['p19.c'],**{'with':U})], "every fixed-format telegram of the families is decoded by the implementation (accessors, three XML documents read back by a strict reader, normalised records) and compared with an independent transcription of the standard's tables; distinct = distinct telegrams", dict(quick="all unit pairs x coding x function; all media; all byte values; byte pairs on a grid; all data sizes", thorough="all byte values x every third partner; all counter byte pairs"))
P('P20','exploration',[dict(src=['p20.c'],**{'with':U})], "every telegram of the families is rendered by the three document functions; every document is read back by a strict XML reader and compared element by element with the header bytes, the records and, for texts and binary data, the bytes of the telegram; distinct = distinct telegrams", dict(quick="all texts/units of <=3 of 17 special characters; all byte pairs; all header bytes and neighbouring pairs; all DIF x VIF; all sequences of <=3 of 18 record kinds", thorough="texts of <=4 characters; sequences of <=4 records"))
P('P21','exploration',[dict(src=['p21.c'],**{'with':U})], "every telegram and chain of telegrams of the families is rendered by the implementation and every document is read back by a strict XML reader and compared record by record with the telegrams; distinct = distinct chains", dict(quick="7 kinds of small record x every count x texts of every length (a fifth of those not filling the telegram); unit text x value text; all chains of <=4 of 12 telegram kinds; chains of up to 48 telegrams; unusable telegrams of 10 kinds at every position", thorough="chains of <=5 and of up to 128 telegrams; twice to five times as many lengths"))
P('P22','exploration',[dict(src=['p22.c'],**{'with':U})], "every byte sequence of the families is handed to the parser on memory that ends at an inaccessible page, and every decoder, printer and encoder is applied to the result, under address and undefined-behaviour checking, allocation accounting and a watchdog; distinct = distinct sequences; states = (verdict, telegram type, control information)", dict(quick="all strings of <=5 of 15 telegram bytes, framed and unframed; all record areas of <=4 of 20 structural bytes; all control information x sizes; all value bytes; all LVAR codes x sizes; every byte of every real telegram changed in 12 ways and every prefix", thorough="strings of <=6 bytes, record areas of <=5, every byte of every real telegram set to every value"))
P('P29','exploration',[dict(src=['p29.c'],**{'with':U})], "every telegram of the families is decoded, packed into a clean and a dirty telegram and into its own, compared with the bytes it was decoded from (fillers removed by a reference grammar), decoded and packed again; decoded forms of every size around the maximum are built by hand; distinct = distinct telegrams; states = (kind, records, size)", dict(quick="all record areas of <=4 of 20 structural bytes; all sequences of <=4 of 16 record kinds; all DIF x VIF; all chain lengths; all unit text lengths; all variable lengths; all pairs of record kinds at every size", thorough="<=5 structural bytes, <=5 records"))
P('P31','model_checking',[dict(src=['p31.c'],defs=['TOOL=%d'%k],tool=t,label=t[5:-2],**{'with':U}) for k,t in ((1,'mbus-serial-request-data.c'),(2,'mbus-tcp-request-data.c'),(3,'mbus-serial-request-data-multi-reply.c'),(4,'mbus-tcp-request-data-multi-reply.c'),(5,'mbus-tcp-raw-send.c'))], "the five programs run unmodified (main renamed) on the simulated line; every history of answers to selection and requests, every failing step of connecting and transmitting as bounded deviations, addresses, options and texts; wire, output and exit status are compared with a reference; the implementation itself is explored, so every execution is a validated trace; states = (stage, answer, retries, telegrams)", dict(quick="23 answers to the selection x 23 to the request, 13 answers to each of up to 4 requests of a multi-telegram readout, 1 failing step with all and 3 with the default answers, every primary address, 24 texts that are none, all real telegrams, every option, 10 destinations, documents of up to 0.6 MB, single allocation failures", thorough="5 requests, 2 and 4 failing steps, all addresses of raw short telegrams"))
P('P32','model_checking',[dict(src=['p32.c'],defs=['TOOL=%d'%k],tool=t,label=t[5:-2],**{'with':U}) for k,t in ((1,'mbus-serial-set-address.c'),(2,'mbus-serial-switch-baudrate.c'),(3,'mbus-serial-select-secondary.c'),(4,'mbus-tcp-select-secondary.c'),(5,'mbus-tcp-application-reset.c'))], "the five programs run unmodified (main renamed) on the simulated line; every history of answers to the test of the new address, the selection, the command and the request, every failing step of connecting and transmitting as bounded deviations, addresses, parameters and texts; wire, report and exit status are compared with a reference; the implementation itself is explored, so every execution is a validated trace; states = (stage, answer)", dict(quick="23 answers at every stage, 1 failing step with all and 4 with the default answers, every primary address and new address, every subcode and rate, texts that are none, 10 destinations, single allocation failures", thorough="2 and 5 failing steps, every answer with every new address and subcode, every number as a rate"))
P('P33','exploration',[dict(src=['p33.c'],**{'with':U})], "every header and application error of the families is decoded by the implementation and every report of it (decoded fields, names, secondary address, three documents read back by a strict reader) is compared with the bytes received and a transcription of the standard's tables and of the list of known products; distinct = distinct headers and codes", dict(quick="every header byte over 3 backgrounds, all manufacturers, all media x versions, all pairs of identification digits with documents; every manufacturer of the list of known products x version x medium x identification; all pairs of header bytes (a fifth of the values of one)", thorough="all pairs of header bytes, documents for a sixteenth"))
P('P35','model_checking',[dict(src=['p35.c'],**{'with':U})]+[dict(src=['p35t.c'],defs=['TOOL=%d'%k],tool=t,label=t[5:-2],**{'with':U}) for k,t in enumerate(('mbus-serial-request-data.c','mbus-tcp-request-data.c','mbus-serial-request-data-multi-reply.c','mbus-tcp-request-data-multi-reply.c','mbus-tcp-raw-send.c','mbus-serial-scan.c','mbus-tcp-scan.c','mbus-serial-scan-secondary.c','mbus-serial-set-address.c','mbus-tcp-application-reset.c','mbus-serial-switch-baudrate.c','mbus-serial-select-secondary.c','mbus-tcp-select-secondary.c','mbus-tcp-scan-secondary.c'),1)], "every telegram of the families is dumped by the implementation and the text is read back and compared with the telegram's bytes and with a reference decomposition; the programs run unmodified on the simulated line with every history of answers, and what their trace shows is compared with what was written and read; distinct = distinct telegrams; states = (kind, records, size), (program, telegram, answer)", dict(quick="telegrams of all sizes, chains of up to 4, line traces of all sizes 0..300 and all byte pairs; all record areas of <=4 of 16 structural bytes; all DIF x VIF; every extension byte at every position; all chain lengths; header and fixed byte pairs on a grid; programs: 26 answers to each of the first 2 telegrams, one failing transmission, every address of a scan, raw telegrams of every size", thorough="<=5 structural bytes; 3 telegrams, two failing transmissions"))
P('P23','model_checking',[dict(src=['p23.c'],san='asan',**{'with':U})]+[dict(src=['p%s.c'%k],defs=['LEAKS=1'],label='memory accounting of the executions of P%s'%k,**{'with':U}) for k in ('06','10','11','26','34')], "every operation of the library on every kind of telegram, with each of its allocations failing in turn: alone, together with every later one, and in every pair; the result is compared with that of the undisturbed operation, memory and descriptors are accounted for, and the operation is repeated with memory available; the implementation itself is explored; states = (failing allocation, once or from then on, verdict)", dict(quick="every single and every pair of allocation failures of every operation (pairs: operations of up to 60 allocations): 41 telegram kinds, all real telegrams, sequences of up to 3 telegrams, every DIF with 12 VIFs, every unit code, every command (accepted, refused, failing on the line), request, selection, probe and scan; the memory balance of all executions of P06, P10, P11, P26 and P34", thorough="pairs for every operation; sequences of up to 8, every DIF with every VIF, every fixed status and unit"))
P('P24','model_checking',[dict(src=['p24.c'],san='none',cflags=['-O1'],label='-O1',**{'with':U}), dict(src=['p24.c'],san='pat',label='pattern',**{'with':U}), dict(src=['p24.c'],san='msan',label='memory sanitizer',**{'with':U})], "every history of up to three telegrams (59 kinds, accepted and refused) with fresh or used objects and three contents of free memory; the complete output of everything that can be done with the last one (accessors, documents, dumps, error text) is compared with that of a pristine process; every telegram of the single-telegram families is decoded with two pasts and two contents of memory and stack; the implementation itself is explored, so every execution is a validated trace; a second build checks every use of uninitialised memory; states = (telegram, previous telegram, objects reused)", dict(quick="all pairs x 3 object policies x 3 memory contents, a third of all triples; receptions of all pairs and of triples with a failed reception", thorough="all triples x 3 policies; receptions of all triples"))
# cheap checks: the quick run covers what was once the thorough bound, the thorough run goes deeper
DEEP = {'P01':"strings of <=7", 'P02':None, 'P03':None, 'P04':"<=5 short reads", 'P06':None, 'P07':'histories of 5 operations', 'P08':None, 'P09':"<=6 items", 'P12':"sets of up to 5 meters", 'P14':"strings of <=7 bytes", 'P16':None, 'P17':None, 'P19':None, 'P20':"texts of <=5 characters, sequences of <=5 records", 'P26':None, 'P27':"<=7 characters", 'P28':"all 32-bit integers", 'P29':"<=6 structural bytes, <=6 records", 'P30':None, 'P34':None}
for i, t in DEEP.items():
    b = PROPS[i]['bounds']; PROPS[i]['deep'] = 1
    q = b['quick'] if b['thorough'] == 'same' else b['quick'] + '; extended to: ' + b['thorough']
    PROPS[i]['bounds'] = dict(quick=q, thorough='as quick; extended to: ' + t if t else 'same')
