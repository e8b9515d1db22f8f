#!/usr/bin/env python3
"""Write the 'fixed:' entries of known_findings.txt from the fix: commits of /repo (the property of each is listed here)."""
import subprocess,sys
M=[("long texts are not cut","P21","long texts and units that need encoding were cut in the XML output"),
("room for the longest record","P21","the XML buffer was overrun by records of more than 1024 bytes"),
("with an unusable telegram","P21","records freed twice / lost when a later telegram of a chain cannot be shown"),
("record without a known unit","P22","the decoded text or date of a record with an unknown unit leaked"),
("checks that it fits into the frame","P29","mbus_frame_internal_pack wrote beyond the end of the frame"),
("manufacturer specific data and text units","P29","a VIF was inserted into manufacturer specific data; the text of a unit was left out"),
("largest frames are printed","P35","mbus_frame_print printed no byte of telegrams with more than 247 data bytes and reported success"),
("maximum and minimum values are not printed","P35","mbus_data_variable_print called maximum and minimum values errors"),
("acknowledge as valid","P01","mbus_frame_verify refused a valid acknowledge"),
("more data than a frame can hold","P03","mbus_frame_pack overran its frame with data_size > 252"),
("cannot be packed for any reason","P06","sending went on with an unpackable frame"),
("without a handle","P06","mbus_send_frame(NULL) crashed"),
("purges only frames","P09","a failed reception was repeated or hidden by purging"),
("0 to 250","P07","mbus_set_primary_address accepted addresses the standard reserves"),
("hexadecimal digits in the identification","P08","wildcards and hex digits of the identification number were not packed into the selection"),
("pairs of hexadecimal digits","P27","mbus_hex2bin accepted text that is no pair of hex digits"),
("bcd_encode is the inverse","P28","negative and wide numbers did not decode to the encoded value"),
("int_encode extends","P28","shift out of range for more than four bytes"),
("serial line cannot be configured","P30","mbus_connect succeeded although the line could not be configured"),
("TCP time-out cannot be set","P30","mbus_connect succeeded although the receive time-out could not be set"),
("has no descriptor","P25","an unconnected handle used descriptor 0 or a stale one"),
("reads all frames if max_frames is 0","P10","max_frames 0 read one frame only"),
("a short frame does not keep the fields of an earlier frame","P24","fields of the previous (or of no) frame were used when a short frame was decoded"),
("an acknowledge does not keep the fields of an earlier frame","P24","fields of the previous frame survived in an acknowledge"),
("frees the records of every reply","P10","records of the replies leaked or were freed twice"),
("link error while selecting","P11","a link error was reported as 'nothing found'"),
("unexpected reply to a selection","P11","garbage after a selection reply was reported as a single meter"),
("reported at every depth","P12","a failed scan below the first digit was silently dropped"),
("identification number is given","P12","a mask without wildcards found nothing"),
("scan programs report a failed scan","P12","exit code 0 after a failed scan"),
("rest of one answer","P13","left-overs of a collision were attributed to the next address"),
("two digits per byte","P14","variable length BCD data were cut at half their size"),
("longest unit text","P14","a unit text of the maximum size overran its buffer"),
("room for all data of a frame","P14","record data overran the record"),
("beyond the end of the data","P14","the record parser read behind the end of the user data"),
("storage numbers of long","P17","storage number of chains with 8 and more DIFE overflowed int"),
("start of a tariff","P18","VIF FD 30 was normalised as Reserved"),
("energies in GJ","P18","VIF FB 08/09 had the unit Reserved"),
("power in GJ/h","P18","VIF FB 30/31 had the unit J"),
("maximum power 10 mW","P18","VIF FB 79 was scaled by 1e-3"),
("manufacturer specific VIF do not","P18","VIFE of VIF FF were applied as correction"),
("plain text unit is shown","P18","raw unit 'Custom VIF' instead of the text"),
("100 kJ and MJ","P19","units 0D and 0E exchanged in the raw view"),
("scale of power in fixed","P19","units 15..1C normalised without their power of ten"),
("is a power","P19","units 1D..25 normalised as energy"),
("no memory for one of its records","P23","a telegram was shown with half of its records, or as empty, when memory ran out while decoding it"),
("without memory for its text","P23","units and quantities came out as NULL with success when memory ran out"),
("as empty for lack of memory","P23","normalised XML showed an empty record when memory ran out"),
("print an uninitialised pointer","P23","the error text of the secondary address for a missing frame used an uninitialised pointer"),
("probe that runs out of memory","P23","a probe or scan that ran out of memory reported that no meter answered"),
("request programs refuse an address","P31","an address text that is no number, or out of range, was read as address 0 or a wrapped one and that meter was read out"),
("fail when the reply is no confirmation","P32","set-address, switch-baudrate, application-reset and select exited with success after a reply that is no confirmation, or no valid reply at all"),
("refuse an address or subcode","P32","address, new address and subcode texts that are no number were used as 0 or wrapped, e.g. a new address 'x' gave the meter address 0"),
("carries no secondary address","P32","select printed (null) and exited with success when the answer carried no secondary address"),
("reports the address it searched for","P32","serial select with -b reported the baud rate as the address searched for"),
("ml/h and 10 ml/h","P19","unit 2F scaled ten times too large, unit 30 unknown"),
]
try: from fixed_more import MORE
except ImportError: MORE=[
 ('primary scan programs report','P13','a scan over a line on which sending or receiving failed ended with success, as if nobody had answered'),]
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s']).decode().splitlines()
out=["# known findings: lines 'known: property=<id> key=<signature> <what fails>' suppress exactly that signature;","# lines 'fixed: property=<id> <commit> <what failed>' record repaired defects and suppress nothing."]
try:
    for l in open('/verif/known_findings.txt'):
        if l.startswith('known:'): out.append(l.rstrip('\n'))
except FileNotFoundError: pass
used=set()
for l in reversed(log):
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    m=[x for x in M+MORE if x[0] in s]
    if len(m)!=1: sys.exit('no unique entry for '+l)
    out.append('fixed: property=%s %s %s'%(m[0][1],h,m[0][2]))
open('/verif/known_findings.txt','w').write('\n'.join(out)+'\n')
