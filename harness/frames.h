/* telegrams of real meters, from the test data of the library (tools/mkframes.py) */
static const struct { const char *name; int n; const unsigned char *b; } FRAMES[] = {
{ "ACW_Itron-BM-plus-m", 66, (const unsigned char *)"\x68\x3C\x3C\x68\x08\x08\x72\x78\x03\x49\x11\x77\x04\x0E\x16\x0A\x00\x00\x00\x0C\x78\x78\x03\x49\x11\x04\x13\x31\xD4\x00\x00\x42\x6C\x00\x00\x44\x13\x00\x00\x00\x00\x04\x6D\x0B\x0B\xCD\x13\x02\x27\x00\x00\x09\xFD\x0E\x02\x09\xFD\x0F\x06\x0F\x00\x01\x75\x13\xD3\x16" },
{ "ACW_Itron-CYBLE-M-Bus-14", 92, (const unsigned char *)"\x68\x56\x56\x68\x08\x01\x72\x23\x15\x01\x09\x77\x04\x14\x07\x25\x00\x00\x00\x0C\x78\x23\x15\x01\x09\x0D\x7C\x08\x44\x49\x20\x2E\x74\x73\x75\x63\x0A\x35\x35\x37\x36\x37\x30\x41\x4C\x39\x30\x04\x6D\x1A\x0E\xCD\x13\x02\x7C\x09\x65\x6D\x69\x74\x20\x2E\x74\x61\x62\xD4\x09\x04\x13\x1F\x00\x00\x00\x04\x93\x7F\x00\x00\x00\x00\x44\x13\x1F\x00\x00\x00\x0F\x00\x01\x1F\xA9\x16" },
{ "EDC", 180, (const unsigned char *)"\x68\xAE\xAE\x68\x28\x01\x72\x95\x08\x12\x11\x83\x14\x02\x04\x17\x00\x00\x00\x84\x00\x86\x3B\x23\x00\x00\x00\x84\x00\x86\x3C\xD1\x01\x00\x00\x84\x40\x86\x3B\x00\x00\x00\x00\x84\x40\x86\x3C\x00\x00\x00\x00\x85\x00\x5B\x2B\x4B\xAC\x41\x85\x00\x5F\x20\xD7\xAC\x41\x85\x40\x5B\x00\x00\xB8\x42\x85\x40\x5F\x00\x00\xB8\x42\x85\x00\x3B\x84\x00\x35\x3F\x85\x40\x3B\x00\x00\x00\x00\x95\x00\x3B\x95\xCF\xB2\x43\x95\x40\x3B\x00\x00\x00\x00\x85\x00\x2B\x00\x00\x00\x00\x85\x40\x2B\x00\x00\x00\x00\x95\x00\x2B\xD3\x9F\x90\x46\x95\x40\x2B\x00\x00\x00\x00\x04\x6D\x19\x0F\x8A\x17\x84\x00\x7C\x01\x43\xF3\x0D\x00\x00\x84\x40\x7C\x01\x43\x9D\x01\x00\x00\x84\x00\x7C\x01\x63\x01\x00\x00\x00\x84\x40\x7C\x01\x63\x01\x00\x00\x00\x0F\x2F\x16" },
{ "EFE_Engelmann-Elster-SensoStar-2", 167, (const unsigned char *)"\x68\xA1\xA1\x68\x08\x00\x72\x45\x33\x08\x24\xC5\x14\x00\x04\x66\x27\x00\x00\x04\x78\x91\x7B\x6F\x01\x04\x6D\x17\x2E\xCC\x13\x04\x15\x00\x00\x00\x00\x44\x15\x00\x00\x00\x00\x84\x01\x15\x00\x00\x00\x00\x04\x06\x00\x00\x00\x00\x44\x06\x00\x00\x00\x00\x84\x01\x06\x00\x00\x00\x00\x84\x10\x06\x00\x00\x00\x00\xC4\x10\x06\x00\x00\x00\x00\x84\x11\x06\x00\x00\x00\x00\x42\x6C\xBF\x1C\x02\x6C\xDF\x1C\x84\x20\x06\x00\x00\x00\x00\x84\x30\x06\x00\x00\x00\x00\x04\x3B\x00\x00\x00\x00\x14\x3B\x19\x00\x00\x00\x04\x2B\x00\x00\x00\x00\x14\x2B\x0B\x00\x00\x00\x02\x5B\x16\x00\x02\x5F\x15\x00\x04\x61\x09\x00\x00\x00\x02\x23\x0C\x02\x01\xFD\x17\x00\x04\x90\x28\x0B\x00\x00\x00\xEB\x16" },
{ "EFE_Engelmann-WaterStar", 87, (const unsigned char *)"\x68\x51\x51\x68\x08\x0B\x72\x54\x02\x99\x04\xC5\x14\x00\x06\x0C\x27\x00\x00\x04\x78\x2E\x25\x4C\x00\x04\x6D\x0A\x0C\xCD\x13\x04\x13\x4C\x01\x00\x00\x44\x13\x4B\x01\x00\x00\x84\x01\x13\x4C\x01\x00\x00\x42\x6C\xBF\x1C\x02\x6C\xDF\x1C\x04\x3B\x00\x00\x00\x00\x14\x3B\x16\x08\x00\x00\x02\x23\xA7\x04\x01\xFD\x17\x00\x04\x90\x28\x08\x00\x00\x00\x3F\x16" },
{ "ELS_Elster-F96-Plus", 110, (const unsigned char *)"\x68\x68\x68\x68\x08\x00\x72\x51\x39\x49\x44\x93\x15\x2F\x04\xA1\x70\x00\x00\x0C\x06\x00\x00\x00\x00\x8C\x10\x06\x00\x00\x00\x00\x8C\x20\x13\x00\x00\x00\x00\x0C\x13\x00\x00\x00\x00\x3C\x2B\xBD\xEB\xDD\xDD\x3B\x3B\xBD\xEB\xDD\x0A\x5A\x27\x02\x0A\x5E\x26\x02\x0A\x62\x01\x00\x0A\x27\x30\x07\x04\x6D\x09\x0D\xCD\x13\x4C\x06\x00\x00\x00\x00\x4C\x13\x00\x00\x00\x00\xCC\x10\x06\x00\x00\x00\x00\xCC\x20\x13\x00\x00\x00\x00\x42\x6C\xBF\x15\x40\x16" },
{ "ELV-Elvaco-CMa10", 89, (const unsigned char *)"\x68\x53\x53\x68\x08\x0B\x72\x61\x15\x01\x24\x96\x15\x16\x00\x3F\x00\x00\x00\x01\xFD\x1B\x02\x02\xFC\x03\x48\x52\x25\x74\x22\x15\x22\xFC\x03\x48\x52\x25\x74\x24\x0D\x12\xFC\x03\x48\x52\x25\x74\xC3\x1C\x02\x65\x2E\x08\x22\x65\x5C\x05\x12\x65\xA2\x0B\x01\x72\x18\x42\x65\x2C\x08\x82\x01\x65\x1F\x08\x0C\x78\x61\x15\x01\x24\x03\xFD\x0F\x00\x00\x04\x1F\xBD\x16" },
{ "EMU_EMU-Professional-375-M-Bus", 250, (const unsigned char *)"\x68\xF4\xF4\x68\x08\x00\x72\x29\x26\x03\x00\xB5\x15\x10\x02\x02\x00\x00\x00\x0C\x78\x29\x26\x03\x00\x84\x10\x03\x54\x05\x00\x00\x84\x20\x03\x00\x00\x00\x00\x84\x90\x40\x03\xAE\x1E\x00\x00\x84\xA0\x40\x03\x00\x00\x00\x00\x04\xAB\xFF\x01\xFE\xFF\xFF\xFF\x04\xAB\xFF\x02\x00\x00\x00\x00\x04\xAB\xFF\x03\x00\x00\x00\x00\x04\x2B\xFE\xFF\xFF\xFF\x84\x80\x40\xAB\xFF\x01\x0E\x00\x00\x00\x84\x80\x40\xAB\xFF\x02\x00\x00\x00\x00\x84\x80\x40\xAB\xFF\x03\x00\x00\x00\x00\x84\x80\x40\x2B\x0E\x00\x00\x00\x02\xFD\xC8\xFF\x01\xD1\x08\x02\xFD\xC8\xFF\x02\x00\x00\x02\xFD\xC8\xFF\x03\x00\x00\x22\xFD\xC8\xFF\x01\x52\x07\x22\xFD\xC8\xFF\x02\x00\x00\x22\xFD\xC8\xFF\x03\x00\x00\x12\xFD\xC8\xFF\x01\x6A\x09\x12\xFD\xC8\xFF\x02\x00\x00\x12\xFD\xC8\xFF\x03\x00\x00\x03\xFD\xD9\xFF\x01\xBE\xFF\xFF\x03\xFD\xD9\xFF\x02\x00\x00\x00\x03\xFD\xD9\xFF\x03\x00\x00\x00\x03\xFD\x59\xBE\xFF\xFF\x01\xFF\xE1\xFF\x01\x0D\x01\xFF\xE1\xFF\x02\x00\x01\xFF\xE1\xFF\x03\x00\x02\xFF\x52\xF4\x01\x02\xFD\x60\x38\x00\x01\xFD\x17\x00\x74\x16" },
{ "Elster-F2", 150, (const unsigned char *)"\x68\x90\x90\x68\x08\x01\x72\x57\x26\x80\x00\xCD\x4E\x08\x04\x46\x00\x00\x00\x04\x06\x98\x14\x00\x00\x04\x14\x6B\xD6\x01\x00\x84\x40\x14\x79\x66\x01\x00\x02\x5B\x1C\x00\x02\x5F\x22\x00\x02\x62\x00\x00\x04\x22\xB1\xA1\x00\x00\x04\x26\xB1\xA1\x00\x00\x04\x3B\x00\x00\x00\x00\x04\x2C\x00\x00\x00\x00\x04\x6D\x0C\x0C\xBD\x16\x84\x40\x6E\x00\x00\x00\x00\x84\x80\x40\x6E\x00\x00\x00\x00\x1F\xC4\x09\x01\x01\x12\x00\x01\x01\x01\x07\x57\x26\x80\x00\xCD\x4E\x08\x04\x07\xA3\xFF\x03\x57\x26\x80\x00\x04\x04\x0D\x02\xFF\x0F\x05\x3C\xFF\x62\xE7\x62\x96\x0A\x89\x0A\x02\x00\x15\x40\x17\x01\x00\x00\x63\x42\xDE\x16" },
{ "FIN-Finder-7E.23.8.230.0020", 62, (const unsigned char *)"\x68\x38\x38\x68\x08\x19\x72\x07\x62\x00\x23\x2E\x19\x23\x02\x92\x00\x00\x00\x8C\x10\x04\x68\x28\x17\x00\x8C\x11\x04\x68\x28\x17\x00\x02\xFD\xC9\xFF\x01\xE6\x00\x02\xFD\xDB\xFF\x01\x06\x00\x02\xAC\xFF\x01\x09\x00\x82\x40\xAC\xFF\x01\xFD\xFF\x5B\x16" },
{ "GWF-MTKcoder", 33, (const unsigned char *)"\x68\x1B\x1B\x68\x08\x01\x72\x07\x20\x18\x00\xE6\x1E\x35\x07\x4C\x00\x00\x00\x0C\x78\x07\x20\x18\x00\x0C\x16\x69\x02\x00\x00\x96\x16" },
{ "LGB_G350", 70, (const unsigned char *)"\x68\x40\x40\x68\x08\x01\x72\x58\x20\x08\x12\xE2\x30\x40\x03\x40\x00\x00\x00\x2F\x2F\x4C\x13\x92\x40\x83\x10\x46\x6D\x00\x00\x08\x16\x27\x00\x0D\x78\x11\x34\x31\x38\x35\x30\x32\x38\x30\x32\x31\x39\x35\x37\x31\x30\x30\x47\x89\x40\xFD\x1A\x01\x01\xFD\x17\x00\x01\xFD\x67\x0F\x38\x16" },
{ "REL-Relay-Padpuls2", 53, (const unsigned char *)"\x68\x2F\x2F\x68\x08\x16\x72\x01\x63\x21\x11\xAC\x48\x41\x03\xB1\x00\x00\x00\x0C\x14\x81\x60\x87\x02\x04\x6D\xA1\x15\xE9\x17\x42\x6C\xDF\x1C\x4C\x14\x82\x73\x59\x02\x42\xEC\x7E\xFF\x1C\x0F\xC0\x01\x01\x0C\xBD\x16" },
{ "SBC_Saia-Burgess-ALE3", 152, (const unsigned char *)"\x68\x92\x92\x68\x08\x28\x72\x55\x00\x00\x19\x43\x4C\x16\x02\xBF\x00\x00\x00\x8C\x10\x04\x93\x02\x00\x00\x8C\x11\x04\x93\x02\x00\x00\x8C\x20\x04\x06\x00\x00\x00\x8C\x21\x04\x06\x00\x00\x00\x02\xFD\xC9\xFF\x01\xDF\x00\x02\xFD\xDB\xFF\x01\x00\x00\x02\xAC\xFF\x01\x00\x00\x82\x40\xAC\xFF\x01\x00\x00\x02\xFD\xC9\xFF\x02\x00\x00\x02\xFD\xDB\xFF\x02\x00\x00\x02\xAC\xFF\x02\x00\x00\x82\x40\xAC\xFF\x02\x00\x00\x02\xFD\xC9\xFF\x03\x00\x00\x02\xFD\xDB\xFF\x03\x00\x00\x02\xAC\xFF\x03\x00\x00\x82\x40\xAC\xFF\x03\x00\x00\x02\xFF\x68\x00\x00\x02\xAC\xFF\x00\x00\x00\x82\x40\xAC\xFF\x00\x00\x00\x01\xFF\x14\x00\x0A\x16" },
{ "SEN_Pollustat", 119, (const unsigned char *)"\x68\x71\x71\x68\x08\x04\x72\x88\x17\x01\x00\xAE\x4C\x06\x0D\x3E\x00\x00\x00\x04\x6D\x3B\x0E\xE7\x14\x34\x6D\x00\x00\x01\x01\x34\xFD\x17\x00\x00\x00\x04\x04\x20\x92\x22\xF1\x00\x04\x24\xA4\x1A\xE7\x00\x04\x86\x3B\x97\x9B\x00\x00\x04\x13\xBE\x09\x5E\x00\x05\x2E\xB1\xD1\x2E\xBE\x05\x3E\xF5\xB8\x4E\x40\x05\x5B\xB8\x2D\xF9\x41\x05\x5F\x78\x8B\xF9\x41\x05\x63\x00\x80\x3B\xBD\x04\xBE\x50\x71\xBB\xB0\x00\x04\xBE\x58\xF4\x02\x00\x00\x0C\x78\x88\x17\x01\x00\x02\x7F\x10\xB5\x5D\x16" },
{ "SEN_Sensus-PolluStat-E", 72, (const unsigned char *)"\x68\x42\x42\x68\x08\x00\x72\x95\x50\x26\x21\xAE\x4C\x0E\x04\xB5\x10\x00\x00\x0C\x06\x00\x00\x00\x00\x0C\x13\x00\x00\x00\x00\x0C\x3B\x00\x00\x00\x00\x0C\x2B\x00\x00\x00\x00\x02\x5A\xC9\x00\x02\x5E\xCA\x00\x03\x60\x00\x00\x00\x0C\x78\x95\x50\x26\x21\x0C\xFD\x10\x95\x50\x26\x21\x1F\xEC\x16" },
{ "SEN_Sensus-PolluTherm", 71, (const unsigned char *)"\x68\x41\x41\x68\x08\x00\x72\x89\x16\x35\x24\xAE\x4C\x0B\x04\x54\x10\x00\x00\x0C\x07\x00\x00\x00\x00\x0C\x14\x00\x00\x00\x00\x0C\x3C\x00\x00\x00\x00\x0C\x2C\x00\x00\x00\x00\x32\x5A\x00\x00\x32\x5E\x00\x00\x33\x60\x00\x00\x00\x0C\x78\x89\x16\x35\x24\x0C\xFD\x10\x89\x16\x35\x24\xCE\x16" },
{ "SLB_CF-Compact-Integral-MK-MaXX", 98, (const unsigned char *)"\x68\x5C\x5C\x68\x08\x04\x72\x14\x73\x81\x11\x82\x4D\x06\x04\x03\x00\x00\x00\x0C\x78\x14\x73\x81\x11\x0C\x06\x00\x00\x00\x00\x0C\x14\x02\x00\x00\x00\x0A\x3B\x00\x00\x0B\x5A\x18\x02\x00\x0B\x5E\x20\x02\x00\x0B\x61\x18\x00\xF0\x32\x26\x00\x00\x02\x27\x98\x04\x04\x6D\x02\x0E\xCD\x13\x84\x40\x14\x7B\x00\x00\x00\x84\x80\x40\x14\x41\x01\x00\x00\x09\xFD\x0E\x03\x09\xFD\x0F\x18\x0F\x00\x16\xDB\x16" },
{ "THI_cma10", 88, (const unsigned char *)"\x68\x52\x52\x68\x08\xE6\x72\x02\x00\x00\x00\x96\x15\x15\x00\x0D\x00\x00\x00\x01\xFD\x1B\x02\x02\xFC\x03\x48\x52\x25\x74\x34\x12\x22\xFC\x03\x48\x52\x25\x74\xC6\x0E\x12\xFC\x03\x48\x52\x25\x74\x02\x14\x02\x65\xD6\x08\x22\x65\xCA\x08\x12\x65\x16\x09\x01\x72\x00\x72\x65\x00\x00\xB2\x01\x65\x00\x00\x0C\x78\x02\x00\x00\x00\x02\xFD\x0F\x04\x03\x1F\x96\x16" },
{ "ZRM_Minol-Minocal-C2", 245, (const unsigned char *)"\x68\xEF\xEF\x68\x08\x02\x72\x84\x50\x42\x31\x4D\x6A\x81\x04\x73\x27\x00\x00\x04\x06\x03\x00\x00\x00\x02\xFD\x17\x00\x00\x84\x04\x6D\x00\x00\xE1\x11\x84\x04\x06\x03\x00\x00\x00\x84\x05\x06\x03\x00\x00\x00\x04\x13\x4A\x00\x00\x00\x04\x3B\x00\x00\x00\x00\x54\x3B\x2B\x00\x00\x00\x54\x6D\x1E\x08\x61\x19\x04\x2D\x00\x00\x00\x00\x94\x01\x2D\x14\x00\x00\x00\x94\x01\x6D\x1E\x08\x61\x19\x02\x59\x17\x08\x02\x5D\xF6\x07\x04\x6D\x2D\x0C\xCD\x13\x82\x80\x01\x6C\xC1\x13\x84\x80\x01\x06\x03\x00\x00\x00\xC2\x80\x01\x6C\xC1\x12\xC4\x80\x01\x06\x03\x00\x00\x00\x82\x81\x01\x6C\xC1\x11\x84\x81\x01\x06\x03\x00\x00\x00\xC2\x81\x01\x6C\xA1\x1C\xC4\x81\x01\x06\x03\x00\x00\x00\x82\x82\x01\x6C\xA1\x1B\x84\x82\x01\x06\x03\x00\x00\x00\xC2\x82\x01\x6C\xA1\x1A\xC4\x82\x01\x06\x03\x00\x00\x00\x82\x83\x01\x6C\xA1\x19\x84\x83\x01\x06\x03\x00\x00\x00\xC2\x83\x01\x6C\xA1\x18\xC4\x83\x01\x06\x03\x00\x00\x00\x92\x80\x01\x6C\xC1\x13\x94\x80\x01\x3B\x00\x00\x00\x00\x94\x80\x01\x2D\x00\x00\x00\x00\x8F\x16" },
{ "abb_delta", 158, (const unsigned char *)"\x68\x98\x98\x68\x08\x01\x72\x12\x34\x56\x78\x42\x04\x02\x02\x45\x00\x00\x00\x0E\x84\x00\x00\x00\x00\x00\x00\x00\x8E\x10\x84\x00\x00\x00\x00\x00\x00\x00\x8E\x20\x84\x00\x00\x00\x00\x00\x00\x00\x8E\xB0\x00\x84\x00\x00\x00\x00\x00\x00\x00\x8E\x80\x10\x84\x00\x00\x00\x00\x00\x00\x00\x8E\x80\x40\x84\x00\x00\x00\x00\x00\x00\x00\x8E\x90\x40\x84\x00\x00\x00\x00\x00\x00\x00\x8E\xA0\x40\x84\x00\x00\x00\x00\x00\x00\x00\x8E\xB0\x40\x84\x00\x00\x00\x00\x00\x00\x00\x8E\x80\x50\x84\x00\x00\x00\x00\x00\x00\x00\x01\xFF\x93\x00\x00\x0C\xFF\x92\x00\x00\x00\x00\x01\x07\xFD\x97\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\xFF\x98\x00\x00\x1F\x75\x16" },
{ "abb_f95", 100, (const unsigned char *)"\x68\x5E\x5E\x68\x08\x00\x72\x90\x85\x71\x26\x24\x23\x28\x04\x73\x50\x00\x00\x0C\x05\x00\x00\x00\x00\x0C\x12\x42\x07\x00\x00\x3C\x2A\xDD\xB4\xEB\xDD\x3B\x3A\xDD\xB4\xEB\x0A\x5A\x04\x02\x0A\x5E\x04\x02\x0A\x62\x00\x00\x04\x6D\x22\x10\x8D\x11\x4C\x05\x00\x00\x00\x00\x44\x6D\x3B\x17\x7E\x14\x44\xED\x7E\x3B\x17\x9E\x14\x8C\x01\x05\x00\x00\x00\x00\x84\x01\x6D\x3B\x17\x7F\x1C\x0B\x26\x53\x65\x08\x04\x16" },
{ "allmess_cf50", 67, (const unsigned char *)"\x68\x3D\x3D\x68\x08\x01\x72\x00\x51\x20\x02\x82\x4D\x02\x04\x00\x88\x00\x00\x04\x07\x00\x00\x00\x00\x0C\x15\x03\x00\x00\x00\x0B\x2E\x00\x00\x00\x0B\x3B\x00\x00\x00\x0A\x5A\x88\x12\x0A\x5E\x16\x05\x0B\x61\x23\x77\x00\x02\x6C\x8C\x11\x02\x27\x37\x0D\x0F\x60\x00\x67\x16" },
{ "amt_calec_mb", 62, (const unsigned char *)"\x68\x38\x38\x68\x08\xC8\x72\x09\x31\x54\x03\xB4\x05\xB0\x04\xC9\x10\xFF\xFF\x03\x22\x9A\x00\x00\x05\x2E\xA0\xC8\x51\x46\x05\x3E\xB4\xE3\xD7\x42\x05\x5B\x90\xD3\x07\x43\x05\x5F\x0E\xAA\xE7\x41\x05\x63\x9C\xBC\xD5\x42\x04\x6D\x10\x09\x05\xC5\x77\x16" },
{ "berg_dz_plus", 169, (const unsigned char *)"\x68\xA3\xA3\x68\x08\x00\x72\x00\x00\x00\x00\x42\x04\x02\x02\x00\x00\x00\x00\x0E\x04\x00\x00\x00\x00\x00\x00\x8E\x10\x04\x00\x00\x00\x00\x00\x00\x8E\x20\x04\x00\x00\x00\x00\x00\x00\x8E\xB0\x00\x04\x00\x00\x00\x00\x00\x00\x8E\x80\x10\x04\x00\x00\x00\x00\x00\x00\x8E\x80\x40\x04\x00\x00\x00\x00\x00\x00\x8E\x90\x40\x04\x00\x00\x00\x00\x00\x00\x8E\xA0\x40\x04\x00\x00\x00\x00\x00\x00\x8E\xB0\x40\x04\x00\x00\x00\x00\x00\x00\x8E\x80\x50\x04\x00\x00\x00\x00\x00\x00\x01\xFF\x13\x00\x0B\xFF\x12\x00\x00\x00\x0A\xFF\x68\x00\x00\x0A\xFF\x69\x00\x00\x07\xFD\x17\x00\x00\x00\x00\x00\x00\x00\x00\x01\xFF\x18\x00\x1F\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xFC\x16" },
{ "eastron_sdm630", 150, (const unsigned char *)"\x68\x90\x90\x68\x08\x0A\x72\x78\x65\x34\x21\x24\x40\x01\x02\x55\x00\x00\x00\x0B\xFD\x47\x56\x34\x12\x0B\xFD\x47\x56\x34\x12\x0B\xFD\x47\x56\x34\x12\x0B\xFD\x47\x56\x34\x12\x0B\xFD\x47\x56\x34\x12\x0B\xFD\x47\x56\x34\x12\x0B\xFD\x59\x56\x34\x12\x0B\xFD\x59\x56\x34\x12\x0B\xFD\x59\x56\x34\x12\x0B\xFD\x59\x56\x34\x12\x0B\x2A\x56\x34\x12\x0B\x2A\x56\x34\x12\x0B\x2A\x56\x34\x12\x0B\x2A\x56\x34\x12\x0B\xFD\x3A\x56\x34\x12\x0B\xFD\x3A\x56\x34\x12\x0B\xFD\x3A\x56\x34\x12\x0B\xFD\x3A\x56\x34\x12\x0A\xFD\x3A\x00\x05\x0A\xFD\x3A\x05\x00\x0A\xFD\x3A\x05\x00\x0A\xFD\x3A\x05\x00\x0A\xFD\x3A\x50\x00\x4D\x16" },
{ "electricity-meter-1", 152, (const unsigned char *)"\x68\x92\x92\x68\x08\x01\x72\x3E\x02\x00\x05\x43\x4C\x12\x02\x13\x00\x00\x00\x8C\x10\x04\x52\x12\x00\x00\x8C\x11\x04\x52\x12\x00\x00\x8C\x20\x04\x33\x44\x77\x01\x8C\x21\x04\x33\x44\x77\x01\x02\xFD\xC9\xFF\x01\xED\x00\x02\xFD\xDB\xFF\x01\x20\x00\x02\xAC\xFF\x01\x4F\x00\x82\x40\xAC\xFF\x01\xEE\xFF\x02\xFD\xC9\xFF\x02\xE7\x00\x02\xFD\xDB\xFF\x02\x23\x00\x02\xAC\xFF\x02\x51\x00\x82\x40\xAC\xFF\x02\xF1\xFF\x02\xFD\xC9\xFF\x03\xE4\x00\x02\xFD\xDB\xFF\x03\x45\x00\x02\xAC\xFF\x03\xA0\x00\x82\x40\xAC\xFF\x03\xE0\xFF\x02\xFF\x68\x00\x00\x02\xAC\xFF\x00\x40\x01\x82\x40\xAC\xFF\x00\xBF\xFF\x01\xFF\x13\x04\xD9\x16" },
{ "electricity-meter-2", 152, (const unsigned char *)"\x68\x92\x92\x68\x08\x02\x72\xE5\x02\x00\x05\x00\x00\x12\x02\x25\x00\x00\x00\x8C\x10\x04\x54\x02\x00\x00\x8C\x11\x04\x54\x02\x00\x00\x8C\x20\x04\x28\x41\x44\x00\x8C\x21\x04\x28\x41\x44\x00\x02\xFD\xC9\xFF\x01\xE9\x00\x02\xFD\xDB\xFF\x01\x01\x00\x02\xAC\xFF\x01\x00\x00\x82\x40\xAC\xFF\x01\x00\x00\x02\xFD\xC9\xFF\x02\xEA\x00\x02\xFD\xDB\xFF\x02\x00\x00\x02\xAC\xFF\x02\x00\x00\x82\x40\xAC\xFF\x02\x00\x00\x02\xFD\xC9\xFF\x03\xEB\x00\x02\xFD\xDB\xFF\x03\x01\x00\x02\xAC\xFF\x03\x00\x00\x82\x40\xAC\xFF\x03\x00\x00\x02\xFF\x68\x00\x00\x02\xAC\xFF\x00\x00\x00\x82\x40\xAC\xFF\x00\x00\x00\x01\xFF\x13\x04\xE9\x16" },
{ "els_falcon", 80, (const unsigned char *)"\x68\x4A\x4A\x68\x08\x01\x72\x45\x23\x11\x70\x93\x15\x0A\x07\x02\x00\x00\x00\x0C\x13\x67\x45\x23\x01\x04\x6D\x3A\x0D\xE6\x02\x42\x6C\xE1\x01\x4C\x13\x51\x69\x45\x00\x42\xEC\x7E\x01\x11\x12\x3B\x39\x17\x42\x6C\x01\x11\x02\x3B\xF9\x17\x0F\x0E\x42\x20\x01\x01\x01\x00\x05\x08\x5E\x01\x20\x3D\x12\x08\x3D\x12\x08\x00\xC0\x16" },
{ "els_tmpa_telegramm1", 50, (const unsigned char *)"\x68\x2C\x2C\x68\x08\x01\x72\x45\x23\x11\x70\x93\x15\x02\x07\x02\x00\x00\x00\x0C\x13\x67\x45\x23\x01\x04\x6D\x3A\x0D\xE6\x02\x42\x6C\xE1\x01\x4C\x13\x51\x69\x45\x00\x42\xEC\x7E\x01\x11\x0F\x00\x61\x16" },
{ "elv_temp_humid", 89, (const unsigned char *)"\x68\x53\x53\x68\x08\x05\x72\x34\x08\x00\x54\x96\x15\x32\x00\xF2\x00\x00\x00\x01\xFD\x1B\x00\x02\xFC\x03\x48\x52\x25\x74\xD4\x11\x22\xFC\x03\x48\x52\x25\x74\xC8\x11\x12\xFC\x03\x48\x52\x25\x74\xB4\x16\x02\x65\xD0\x08\x22\x65\x70\x08\x12\x65\x23\x09\x01\x72\x18\x42\x65\xE4\x08\x82\x01\x65\xDD\x08\x0C\x78\x34\x08\x00\x54\x03\xFD\x0F\x00\x00\x04\x1F\x5D\x16" },
{ "emh_diz", 39, (const unsigned char *)"\x68\x21\x21\x68\x08\x01\x72\x02\x37\x62\x00\xA8\x15\x00\x02\x07\x00\x00\x00\x8C\x10\x04\x09\x04\x00\x00\xC4\x00\x2A\x00\x00\x00\x00\x01\xFD\x17\x00\x8C\x16" },
{ "engelmann_sensostar2c", 172, (const unsigned char *)"\x68\xA6\xA6\x68\x08\x03\x72\x10\x00\x38\x10\xC5\x14\x01\x04\x1E\x00\x00\x00\x04\x78\xEA\x62\x9E\x00\x04\x6D\x32\x14\x86\x16\x04\x15\x81\x00\x00\x00\x04\xFB\x00\x08\x00\x00\x00\x84\x20\xFB\x00\x00\x00\x00\x00\x84\x30\xFB\x00\x00\x00\x00\x00\x04\x3D\x00\x00\x00\x00\x04\x2D\x00\x00\x00\x00\x02\x5B\x5F\x00\x02\x5F\x2B\x00\x04\x61\x8A\x14\x00\x00\x02\x27\xFA\x01\x01\xFD\x17\x00\x04\x90\x28\xA0\x86\x01\x00\x42\x6C\x7F\x1C\x44\x15\x81\x00\x00\x00\x44\xFB\x00\x08\x00\x00\x00\xC4\x20\xFB\x00\x00\x00\x00\x00\xC4\x30\xFB\x00\x00\x00\x00\x00\x82\x01\x6C\x5F\x1C\x84\x01\x15\x54\x00\x00\x00\x84\x01\xFB\x00\x05\x00\x00\x00\x84\x21\xFB\x00\x00\x00\x00\x00\x84\x31\xFB\x00\x00\x00\x00\x00\xB7\x16" },
{ "example_binary16_lvar", 43, (const unsigned char *)"\x68\x25\x25\x68\x08\x00\x72\x00\x00\x00\x00\xCD\x25\x01\x02\x00\x00\x00\x00\x0D\x7C\x02\x57\x50\xF0\x96\x07\x5B\x2A\x27\xA6\x93\x01\x3D\xB5\x1A\xB3\xDC\xD1\x3E\x17\xD5\x16" },
{ "example_data_01", 55, (const unsigned char *)"\x68\x31\x31\x68\x08\x01\x72\x45\x58\x57\x03\xB4\x05\x34\x04\x9E\x00\x27\xB6\x03\x06\xF9\x34\x15\x03\x15\xC6\x00\x4D\x05\x2E\x00\x00\x00\x00\x05\x3D\x00\x00\x00\x00\x05\x5B\x22\xF3\x26\x42\x05\x5F\xC7\xDA\x0D\x42\xFA\x16" },
{ "example_data_02", 55, (const unsigned char *)"\x68\x31\x31\x68\x08\x01\x72\x45\x58\x57\x03\xB4\x05\x34\x04\xA1\x00\x27\xB6\x03\x06\xF9\x34\x15\x03\x15\xC6\x00\x4D\x05\x2E\x00\x00\x00\x00\x05\x3D\x00\x00\x00\x00\x05\x5B\x1E\xD8\x24\x42\x05\x5F\xD9\x8A\x0D\x42\x9E\x16" },
{ "filler", 37, (const unsigned char *)"\x68\x1F\x1F\x68\x08\x00\x72\x31\x77\x67\x17\x2D\x2C\x01\x02\x00\x00\x00\x00\x2F\x2F\x04\x83\x3B\x88\x13\x00\x00\x2F\x2F\x2F\x2F\x2F\x2F\x2F\x00\x16" },
{ "frame1", 90, (const unsigned char *)"\x68\x54\x54\x68\x08\x00\x72\x58\x09\x06\x10\x65\x32\x16\x0E\x7B\x00\x00\x00\x0F\x5F\x42\x01\x11\xFF\xFF\xFF\xFF\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xE6\x16" },
{ "frame2", 37, (const unsigned char *)"\x68\x1F\x1F\x68\x08\x02\x72\x78\x56\x34\x12\x24\x40\x01\x07\x55\x00\x00\x00\x03\x13\x15\x31\x00\xDA\x02\x3B\x13\x01\x8B\x60\x04\x37\x18\x02\x18\x16" },
{ "gmc_emmod206", 151, (const unsigned char *)"\x68\x91\x91\x68\x08\x03\x72\x78\x56\x34\x12\xA3\x1D\xE6\x02\x02\x00\x00\x00\x82\x40\xFD\x48\x60\x03\x82\x80\x40\xFD\x48\xBF\x03\x82\xC0\x40\xFD\x48\x20\x04\x82\x40\xFD\x59\xBD\x03\x82\x80\x40\xFD\x59\x1F\x04\x82\xC0\x40\xFD\x59\x7E\x04\x82\x40\x2B\xE0\x00\x82\x40\x2B\x36\xFF\x84\x10\x04\x94\x28\x00\x00\x84\x20\x04\x98\x3A\x00\x00\x84\x50\x04\xBF\x4E\x00\x00\x84\x60\x04\xA8\x61\x00\x00\x84\x90\x40\x04\x8B\x75\x00\x00\x84\xA0\x40\x04\xB8\x88\x00\x00\x84\xD0\x40\x04\x2D\x9D\x00\x00\x84\xE0\x40\x04\xC8\xAF\x00\x00\x82\x41\x2B\xE0\x00\x82\x42\x2B\x00\x00\x82\x43\x2B\x00\x00\x82\x44\x2B\xCA\x00\x42\x16" },
{ "itron_bm_+m", 66, (const unsigned char *)"\x68\x3C\x3C\x68\x08\x08\x72\x78\x03\x49\x11\x77\x04\x0E\x16\x29\x00\x00\x00\x0C\x78\x78\x03\x49\x11\x04\x13\x31\xD4\x00\x00\x42\x6C\x00\x00\x44\x13\x00\x00\x00\x00\x04\x6D\x1D\x0D\x98\x11\x02\x27\x00\x00\x09\xFD\x0E\x02\x09\xFD\x0F\x06\x0F\x00\x00\x8F\x13\xE8\x16" },
{ "itron_cf_51", 106, (const unsigned char *)"\x68\x64\x64\x68\x08\x06\x72\x85\x51\x15\x11\x77\x04\x0A\x0D\x1B\x10\x00\x00\x0C\x78\x85\x51\x15\x11\x04\x06\x00\x00\x00\x00\x0C\x14\x00\x00\x00\x00\x3B\x2D\x99\x99\x99\x0B\x3B\x00\x00\x00\x3A\x5A\x99\x99\x3A\x5E\x99\x99\x3B\x61\x99\x99\x99\x04\x6D\x18\x0D\x98\x11\x02\x27\x68\x00\x09\xFD\x0E\x11\x09\xFD\x0F\x26\x8C\xC0\x00\x16\x21\x03\x00\x00\x8C\x80\x40\x14\x23\x01\x00\x00\x04\x86\x3C\x00\x00\x00\x00\x0F\x03\x20\x85\x16" },
{ "itron_cf_55", 83, (const unsigned char *)"\x68\x4D\x4D\x68\x08\x07\x72\x67\x76\x12\x11\x77\x04\x0B\x0C\x0B\x10\x00\x00\x0C\x78\x67\x76\x12\x11\x04\x07\x00\x00\x00\x00\x0C\x16\x00\x00\x00\x00\x3B\x2D\x99\x99\x99\x0B\x3B\x00\x00\x00\x3A\x5A\x99\x99\x3A\x5E\x99\x99\x3B\x61\x99\x99\x99\x04\x6D\x2F\x0B\x98\x11\x02\x27\xFC\x00\x09\xFD\x0E\x10\x09\xFD\x0F\x21\x0F\x03\x20\x54\x16" },
{ "itron_cf_echo_2", 83, (const unsigned char *)"\x68\x4D\x4D\x68\x08\x09\x72\x91\x00\x10\x11\x77\x04\x09\x04\x51\x10\x00\x00\x0C\x78\x91\x00\x10\x11\x04\x06\x00\x00\x00\x00\x0C\x14\x00\x00\x00\x00\x3B\x2D\x99\x99\x99\x3B\x3B\x99\x99\x99\x0A\x5A\x05\x02\x0A\x5E\x06\x02\x0B\x61\x09\x00\x00\x04\x6D\x1D\x0D\x98\x11\x02\x27\x81\x01\x09\xFD\x0E\x19\x09\xFD\x0F\x45\x0F\x20\x00\xE7\x16" },
{ "itron_cyble_m-bus_v1.4_cold_water", 92, (const unsigned char *)"\x68\x56\x56\x68\x08\x08\x72\x80\x03\x02\x10\x77\x04\x14\x16\xA1\x00\x00\x00\x0C\x78\x80\x03\x02\x10\x0D\x7C\x08\x44\x49\x20\x2E\x74\x73\x75\x63\x0A\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\x04\x6D\x27\x0F\x79\x1A\x02\x7C\x09\x65\x6D\x69\x74\x20\x2E\x74\x61\x62\xD2\x0F\x04\x15\xB7\x11\x00\x00\x04\x95\x7F\x00\x00\x00\x00\x44\x15\xB7\x11\x00\x00\x0F\x00\x04\x1F\x0D\x16" },
{ "itron_cyble_m-bus_v1.4_gas", 92, (const unsigned char *)"\x68\x56\x56\x68\x08\x04\x72\x87\x03\x02\x10\x77\x04\x14\x03\x9A\x00\x00\x00\x0C\x78\x87\x03\x02\x10\x0D\x7C\x08\x44\x49\x20\x2E\x74\x73\x75\x63\x0A\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\x04\x6D\x2B\x0F\x79\x1A\x02\x7C\x09\x65\x6D\x69\x74\x20\x2E\x74\x61\x62\xD2\x0F\x04\x14\x1A\x00\x00\x00\x04\x94\x7F\x00\x00\x00\x00\x44\x14\x19\x00\x00\x00\x0F\x00\x02\x1F\x9F\x16" },
{ "itron_cyble_m-bus_v1.4_water", 92, (const unsigned char *)"\x68\x56\x56\x68\x08\x01\x72\x71\x00\x00\x12\x77\x04\x14\x07\x0A\x30\x00\x00\x0C\x78\x71\x00\x00\x12\x0D\x7C\x08\x44\x49\x20\x2E\x74\x73\x75\x63\x0A\x45\x4C\x42\x59\x43\x20\x54\x53\x45\x54\x04\x6D\x2B\x0D\x98\x11\x02\x7C\x09\x65\x6D\x69\x74\x20\x2E\x74\x61\x62\xF2\x10\x04\x14\x3D\x30\x00\x00\x04\x94\x7F\x14\x00\x00\x00\x44\x14\x00\x00\x00\x00\x0F\x10\x01\x1F\x2F\x16" },
{ "itron_integral_mk_maxx", 98, (const unsigned char *)"\x68\x5C\x5C\x68\x08\x04\x72\x14\x73\x81\x11\x82\x4D\x06\x04\x5D\x00\x00\x00\x0C\x78\x14\x73\x81\x11\x0C\x06\x00\x00\x00\x00\x0C\x14\x02\x00\x00\x00\x0A\x3B\x00\x00\x0B\x5A\x12\x02\x00\x0B\x5E\x11\x02\x00\x0B\x61\x07\x00\x00\x32\x26\x00\x00\x02\x27\x8D\x01\x04\x6D\x11\x0E\x98\x11\x84\x40\x14\x7B\x00\x00\x00\x84\x80\x40\x14\x41\x01\x00\x00\x09\xFD\x0E\x03\x09\xFD\x0F\x18\x0F\x00\x16\xE9\x16" },
{ "kamstrup_382_005", 76, (const unsigned char *)"\x68\x46\x46\x68\x08\x78\x72\x20\x91\x83\x14\x2D\x2C\x01\x02\x04\x00\x00\x00\x04\x06\x00\x00\x00\x00\x04\x22\x09\x00\x00\x00\x04\x2B\x00\x00\x00\x00\x14\x2B\x00\x00\x00\x00\x84\x50\x06\x00\x00\x00\x00\x84\x60\x06\x00\x00\x00\x00\x0F\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10\x24\x16" },
{ "kamstrup_multical_601", 253, (const unsigned char *)"\x68\xF7\xF7\x68\x08\x11\x72\x17\x58\x85\x06\x2D\x2C\x08\x04\x04\x00\x00\x00\x0C\x78\x17\x58\x85\x06\x04\x06\xE7\x91\x00\x00\x04\x14\x2C\xDB\x00\x00\x04\x22\xD9\x03\x00\x00\x04\x59\xB9\x27\x00\x00\x04\x5D\x08\x12\x00\x00\x04\x61\xB1\x15\x00\x00\x04\x2D\x5B\x01\x00\x00\x14\x2D\xC0\x01\x00\x00\x04\x3B\x1F\x02\x00\x00\x14\x3B\x74\x02\x00\x00\x84\x10\x06\x00\x00\x00\x00\x84\x20\x06\x00\x00\x00\x00\x84\x40\x14\x00\x00\x00\x00\x84\x80\x40\x14\x00\x00\x00\x00\x84\xC0\x40\x06\x00\x00\x00\x00\x04\x6D\x1A\x2F\x65\x11\x44\x06\x51\x82\x00\x00\x44\x14\xB2\xC3\x00\x00\x54\x2D\x26\x02\x00\x00\x54\x3B\x03\x04\x00\x00\xC4\x10\x06\x00\x00\x00\x00\xC4\x20\x06\x00\x00\x00\x00\xC4\x40\x14\x00\x00\x00\x00\xC4\x80\x40\x14\x00\x00\x00\x00\xC4\xC0\x40\x06\x00\x00\x00\x00\x42\x6C\x5F\x1C\x0F\x00\x00\x00\x00\xE7\xE4\x00\x00\x63\x66\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x5B\xC9\xA5\x02\x34\x53\x00\x00\xE0\xB2\x03\x00\x89\x9C\x68\x00\x00\x00\x00\x00\x01\x00\x01\x07\x07\x09\x01\x03\x00\x00\x00\x00\x00\x98\x16" },
{ "landis+gyr_ultraheat_t230", 232, (const unsigned char *)"\x68\xE2\xE2\x68\x08\x00\x72\x05\x02\x66\x66\xA7\x32\x07\x04\x01\x10\x00\x00\x09\x74\x04\x09\x70\x08\x0C\x06\x00\x00\x00\x00\x0C\x14\x00\x00\x00\x00\x0B\x2D\x00\x00\x00\x0B\x3B\x00\x00\x00\x0B\x5A\x95\x01\x00\x0B\x5E\x97\x01\x00\x0B\x62\x02\x00\xF0\x0C\x78\x05\x02\x66\x66\x89\x10\x71\x07\x3C\x22\x69\x37\x00\x00\x0C\x22\x69\x37\x00\x00\x0C\x26\x00\x00\x00\x00\x8C\x90\x10\x06\x00\x00\x00\x00\x9B\x10\x2D\x00\x00\x00\x9B\x10\x3B\x00\x00\x00\x9B\x10\x5A\x07\x03\x00\x9B\x10\x5E\x07\x05\x00\x94\x10\xAD\x6F\x00\x00\x00\x00\x94\x10\xBB\x6F\x00\x00\x00\x00\x94\x10\xDA\x6F\x32\x14\x7A\x18\x94\x10\xDE\x6F\x2B\x0B\x69\x18\x4C\x06\x00\x00\x00\x00\x4C\x14\x00\x00\x00\x00\x7C\x22\x69\x34\x00\x00\x4C\x26\x00\x00\x00\x00\xCC\x90\x10\x06\x00\x00\x00\x00\xDB\x10\x2D\x00\x00\x00\xDB\x10\x3B\x00\x00\x00\xDB\x10\x5A\x07\x03\x00\xDB\x10\x5E\x07\x05\x00\x84\x8F\x0F\x6D\x00\x00\xE1\xF1\x04\x6D\x04\x0C\x8D\x11\x0F\x09\x07\x00\x66\x01\x7D\x16" },
{ "manual_frame2", 25, (const unsigned char *)"\x68\x13\x13\x68\x08\x05\x73\x78\x56\x34\x12\x0A\x00\xE9\x7E\x01\x00\x00\x00\x35\x01\x00\x00\x3C\x16" },
{ "manual_frame3", 37, (const unsigned char *)"\x68\x1F\x1F\x68\x08\x02\x72\x78\x56\x34\x12\x24\x40\x01\x07\x55\x00\x00\x00\x03\x13\x15\x31\x00\xDA\x02\x3B\x13\x01\x8B\x60\x04\x37\x18\x02\x18\x16" },
{ "manual_frame7", 27, (const unsigned char *)"\x68\x15\x15\x68\x08\x02\x72\x78\x56\x34\x12\x24\x40\x01\x07\x13\x00\x00\x00\x0C\x78\x04\x03\x02\x01\x9D\x16" },
{ "metrona_pollutherm", 72, (const unsigned char *)"\x68\x42\x42\x68\x08\x00\x72\x46\x01\x95\x44\x18\x4E\x34\x04\x54\x10\x00\x00\x0C\x07\x00\x00\x00\x00\x0C\x14\x00\x00\x00\x00\x0C\x3C\x00\x00\x00\x00\x0C\x2C\x00\x00\x00\x00\x0A\x5A\x00\x00\x0A\x5E\x00\x00\x0B\x60\x00\x00\x00\x0C\x78\x46\x01\x95\x44\x0C\xFD\x10\x46\x01\x95\x44\x1F\x82\x16" },
{ "metrona_ultraheat_xs", 254, (const unsigned char *)"\x68\xF8\xF8\x68\x08\x64\x72\x54\x00\x81\x01\xA7\x32\x02\x04\x0F\x10\x00\x00\x09\x74\x04\x09\x70\x04\x0C\x06\x69\x99\x01\x00\x0C\x14\x18\x92\x64\x02\x0B\x2E\x00\x00\x00\x0B\x3B\x00\x00\x00\x0A\x5B\x00\x00\x0A\x5F\x00\x00\x0A\x62\x00\x00\x4C\x14\x18\x92\x64\x02\x4C\x06\x69\x99\x01\x00\x0C\x78\x54\x00\x11\x65\x89\x10\x71\x60\x9B\x10\x2D\x16\x03\x00\xDB\x10\x2D\x16\x03\x00\x9B\x10\x3B\x20\x88\x00\x9A\x10\x5B\x44\x00\x9A\x10\x5F\x40\x00\x0C\x22\x67\x00\x07\x00\x3C\x22\x09\x16\x05\x00\x7C\x22\x17\x78\x04\x00\x42\x6C\x01\x01\x8C\x20\x06\x00\x00\x00\x00\x8C\x30\x06\x00\x00\x00\x00\x8C\x80\x10\x06\x00\x00\x00\x00\xCC\x20\x06\x00\x00\x00\x00\xCC\x30\x06\x00\x00\x00\x00\xCC\x80\x10\x06\x00\x00\x00\x00\x9A\x11\x5B\x36\x00\x9A\x11\x5F\x40\x00\x9B\x11\x3B\x00\x00\x00\x9B\x11\x2D\x00\x00\x00\xBC\x01\x22\x65\x14\x05\x00\x8C\x01\x06\x69\x99\x01\x00\x8C\x21\x06\x00\x00\x00\x00\x8C\x31\x06\x00\x00\x00\x00\x8C\x81\x10\x06\x00\x00\x00\x00\x8C\x01\x14\x18\x92\x64\x02\x04\x6D\x26\x00\x87\x16\x0F\x03\x02\x00\x00\x23\x46\x16" },
{ "minol_minocal_c2", 245, (const unsigned char *)"\x68\xEF\xEF\x68\x08\x02\x72\x84\x50\x42\x31\x4D\x6A\x81\x04\x24\x27\x00\x00\x04\x06\x03\x00\x00\x00\x02\xFD\x17\x00\x00\x84\x04\x6D\x00\x00\xA1\x11\x84\x04\x06\x03\x00\x00\x00\x84\x05\x06\x00\x00\x00\x00\x04\x13\x49\x00\x00\x00\x04\x3B\x00\x00\x00\x00\x54\x3B\x2B\x00\x00\x00\x54\x6D\x1E\x08\x61\x19\x04\x2D\x00\x00\x00\x00\x94\x01\x2D\x14\x00\x00\x00\x94\x01\x6D\x1E\x08\x61\x19\x02\x59\xD9\x07\x02\x5D\x87\x07\x04\x6D\x35\x0B\x8D\x11\x82\x80\x01\x6C\x81\x11\x84\x80\x01\x06\x03\x00\x00\x00\xC2\x80\x01\x6C\x61\x1C\xC4\x80\x01\x06\x03\x00\x00\x00\x82\x81\x01\x6C\x61\x1B\x84\x81\x01\x06\x03\x00\x00\x00\xC2\x81\x01\x6C\x61\x1A\xC4\x81\x01\x06\x03\x00\x00\x00\x82\x82\x01\x6C\x61\x19\x84\x82\x01\x06\x00\x00\x00\x00\xC2\x82\x01\x6C\x61\x18\xC4\x82\x01\x06\x00\x00\x00\x00\x82\x83\x01\x6C\x61\x17\x84\x83\x01\x06\x00\x00\x00\x00\xC2\x83\x01\x6C\x61\x16\xC4\x83\x01\x06\x00\x00\x00\x00\x92\x80\x01\x6C\x81\x11\x94\x80\x01\x3B\x01\x00\x00\x00\x94\x80\x01\x2D\x00\x00\x00\x00\x8E\x16" },
{ "minol_minocal_wr3", 211, (const unsigned char *)"\x68\xCD\xCD\x68\x08\x00\x72\x59\x27\x80\x31\x4D\x6A\x82\x04\x2B\x00\x00\x00\x04\x06\x00\x00\x00\x00\x04\x14\x01\x00\x00\x00\x04\x2D\x00\x00\x00\x00\x04\x3C\x00\x00\x00\x00\x02\x59\x00\x00\x02\x5D\x00\x00\x84\x04\x06\x00\x00\x00\x00\xC4\x04\x6D\x00\x00\x81\x11\x94\x01\x2D\x00\x00\x00\x00\x94\x01\x6D\x1E\x0B\x8D\x11\x54\x3C\x01\x00\x00\x00\x54\x6D\x1E\x07\x78\x13\x8C\x40\x79\x00\x00\x00\x00\x81\x40\xFD\x09\x07\x84\x40\x13\x01\x00\x00\x00\xC4\x04\x13\x01\x00\x00\x00\x8C\x80\x40\x79\x00\x00\x00\x00\x84\x80\x40\x13\x01\x00\x00\x00\x81\x80\x40\xFD\x09\x07\x84\x05\x13\x01\x00\x00\x00\x02\xFD\x17\x04\x00\x04\x6D\x01\x0C\x8D\x11\x82\x80\x01\x6C\x81\x11\x84\x80\x01\x06\x00\x00\x00\x00\x84\xC0\x01\x13\x01\x00\x00\x00\x84\x80\x41\x13\x01\x00\x00\x00\x92\x80\x01\x6C\x81\x11\x94\x80\x01\x3C\x00\x00\x00\x00\x94\x80\x01\x2D\x00\x00\x00\x00\xAA\x16" },
{ "nzr_dhz_5_63", 56, (const unsigned char *)"\x68\x32\x32\x68\x08\x05\x72\x08\x06\x10\x30\x52\x3B\x01\x02\x01\x00\x00\x00\x04\x03\xFA\x04\x00\x00\x04\x83\x7F\xFA\x04\x00\x00\x02\xFD\x48\x44\x09\x02\xFD\x5B\x00\x00\x02\x2B\x00\x00\x0C\x78\x08\x06\x10\x30\x0F\x0E\x71\x16" },
{ "oms_frame1", 38, (const unsigned char *)"\x68\x20\x20\x68\x08\xFD\x72\x78\x56\x34\x12\x93\x15\x33\x03\x2A\x00\x00\x00\x0C\x14\x27\x04\x85\x02\x04\x6D\x32\x37\x1F\x15\x02\xFD\x17\x00\x00\x89\x16" },
{ "oms_frame2", 47, (const unsigned char *)"\x68\x29\x29\x68\x08\xFD\x72\x44\x22\x75\x92\x24\x23\x29\x07\x1F\x00\x00\x00\x0C\x13\x27\x04\x85\x02\x0B\x3B\x27\x01\x00\x4C\x13\x19\x54\x44\x01\x42\x6C\xFF\x0C\x02\xFD\x17\x00\x00\x99\x16" },
{ "oms_frame3", 66, (const unsigned char *)"\x68\x3C\x3C\x68\x08\xFD\x72\x78\x56\x34\x12\x24\x23\x2A\x04\x26\x00\x00\x00\x0C\x06\x27\x04\x85\x02\x0C\x13\x76\x34\x70\x00\x4C\x06\x19\x54\x44\x01\x42\x6C\xFF\x0C\x0B\x3B\x27\x01\x00\x0B\x2A\x97\x32\x00\x0A\x5A\x43\x04\x0A\x5E\x51\x02\x02\xFD\x17\x00\x00\xC8\x16" },
{ "ram_modularis", 202, (const unsigned char *)"\x68\xC4\xC4\x68\x08\x00\x72\x76\x57\x02\x00\x2D\x48\x03\x07\x8B\x00\x00\x00\x04\x13\x84\x27\x00\x00\x04\x6D\x28\x15\xB2\x1A\x42\x6C\xBC\x19\x44\x13\xC9\x20\x00\x00\x42\xEC\x7E\xDC\x19\x0C\x78\x76\x57\x02\x00\x82\x01\x6C\xBE\x19\x84\x01\x13\x4F\x21\x00\x00\xC2\x01\x6C\x9F\x1A\xC4\x01\x13\xFB\xE0\xF5\x05\x82\x02\x6C\x9E\x1B\x84\x02\x13\xF9\xE0\xF5\x05\xC2\x02\x6C\x9F\x1C\xC4\x02\x13\x0E\x03\x00\x00\x82\x03\x6C\xBF\x11\x84\x03\x13\x89\x07\x00\x00\xC2\x03\x6C\xBC\x12\xC4\x03\x13\x14\x0C\x00\x00\x82\x04\x6C\xBF\x13\x84\x04\x13\x35\x12\x00\x00\xC2\x04\x6C\xBE\x14\xC4\x04\x13\x9F\x12\x00\x00\x82\x05\x6C\xBF\x15\x84\x05\x13\x04\x14\x00\x00\xC2\x05\x6C\xBE\x16\xC4\x05\x13\x38\x14\x00\x00\x82\x06\x6C\xBF\x17\x84\x06\x13\x7E\x14\x00\x00\xC2\x06\x6C\xBF\x18\xC4\x06\x13\x24\x16\x00\x00\x0F\x01\x00\x00\x82\x16" },
{ "rel_padpuls2", 53, (const unsigned char *)"\x68\x2F\x2F\x68\x08\x04\x72\x04\x00\x00\x00\xAC\x48\x12\x00\x01\x00\x00\x00\x0C\x00\x00\x00\x00\x00\x04\x6D\x10\x0D\x34\x09\x42\x6C\x1F\x0C\x4C\x00\x00\x00\x00\x00\x42\xEC\x7E\x3F\x0C\x0F\x43\x01\x01\x00\xD0\x16" },
{ "rel_padpuls3", 53, (const unsigned char *)"\x68\x2F\x2F\x68\x08\x01\x72\x01\x01\x03\x01\xAC\x48\x40\x08\x1E\x00\x00\x00\x0C\x6E\x87\x19\x00\x00\x04\x6D\x29\x0A\x1F\x0C\x42\x6C\x1F\x0C\x4C\x6E\x02\x13\x00\x00\x42\xEC\x7E\x3F\x0C\x0F\xC0\x01\x01\x0C\x40\x16" },
{ "sen_pollucom_e", 72, (const unsigned char *)"\x68\x42\x42\x68\x08\x00\x72\x45\x00\x94\x63\xAE\x4C\x08\x04\xF9\x00\x00\x00\x0C\x06\x19\x90\x01\x00\x0C\x13\x19\x11\x62\x01\x0C\x3B\x00\x00\x00\x00\x0C\x2B\x00\x00\x00\x00\x02\x5A\x67\x01\x02\x5E\xE9\x00\x03\x60\x46\x31\x00\x0C\x78\x45\x00\x94\x63\x0C\xFD\x10\x45\x00\x94\x63\x1F\xB6\x16" },
{ "sen_pollusonic_2", 25, (const unsigned char *)"\x68\x13\x13\x68\x08\x01\x73\x93\x92\x91\x90\x10\x00\x05\x69\x31\x65\x00\x00\x69\x00\x00\x00\x3F\x16" },
{ "sen_pollutherm", 72, (const unsigned char *)"\x68\x42\x42\x68\x08\x08\x72\x76\x00\x05\x21\x18\x4E\x31\x04\x51\x00\x00\x00\x0C\x07\x64\x08\x00\x00\x0C\x14\x92\x98\x79\x00\x0C\x7B\x02\x03\x00\x00\x0C\x2C\x58\x54\x00\x00\x0A\x5A\x55\x07\x0A\x5E\x94\x05\x0B\x60\x76\x60\x01\x0C\x78\x76\x00\x05\x21\x0C\xFD\x10\x76\x00\x05\x21\x1F\xB3\x16" },
{ "siemens_rvd235", 156, (const unsigned char *)"\x68\x96\x96\x68\x08\x00\x72\x04\x11\x29\x00\x7A\x32\x29\x20\x0C\x28\x00\x00\x0C\x78\x20\x71\x04\x00\x06\xFD\x0C\xFC\x03\x6D\x00\x2D\x00\x0D\xFD\x0B\x06\x35\x33\x32\x44\x56\x52\x81\x30\xFD\x7C\x01\x81\x20\xFD\x7C\x00\x01\xFD\x7C\x00\x0F\x02\x78\x04\x00\x02\x7A\x04\x00\x32\x00\x1E\x09\x32\x08\x00\x00\x34\x10\x00\x00\x00\x00\x31\x18\x00\x34\x18\xFF\xFF\xFF\xFF\x71\x18\x00\x74\x18\xFF\xFF\xFF\xFF\xB1\x01\x18\x00\xB4\x01\x18\xFF\xFF\xFF\xFF\xF1\x01\x18\x00\xF4\x01\x18\xFF\xFF\xFF\xFF\xB1\x02\x18\x00\xB4\x02\x18\xFF\xFF\xFF\xFF\xF1\x02\x18\x00\x31\x28\x00\x34\x28\xFF\xFF\xFF\xFF\x71\x28\x00\x01\x01\x00\x01\x09\x00\x24\x16" },
{ "siemens_water", 95, (const unsigned char *)"\x68\x59\x59\x68\x08\x00\x72\x82\x13\x02\x08\x65\x32\x99\x06\xEB\x00\x00\x00\x0C\x13\x01\x01\x00\x00\x0B\x22\x52\x09\x02\x04\x6D\x38\x08\x6E\x19\x32\x6C\x00\x00\x0C\x78\x82\x13\x02\x08\x06\xFD\x0C\x0A\x00\x01\x00\xFA\x01\x0D\xFD\x0B\x05\x31\x32\x48\x46\x57\x01\xFD\x0E\x00\x0B\x3B\x00\x00\x00\x0F\x37\xFD\x17\x00\x00\x00\x00\x00\x00\x00\x00\x02\x7A\x0D\x00\x02\x78\x0D\x00\x11\x16" },
{ "siemens_wfh21", 100, (const unsigned char *)"\x68\x5E\x5E\x68\x08\x05\x72\x91\x64\x00\x08\x65\x32\x99\x06\xDA\x00\x00\x00\x0C\x13\x00\x00\x00\x00\x0B\x22\x86\x40\x04\x04\x6D\x24\x0A\x61\x1C\x32\x6C\x00\x00\x0C\x78\x91\x64\x00\x08\x06\xFD\x0C\x0A\x00\x01\x00\xFA\x01\x0D\xFD\x0B\x05\x31\x32\x48\x46\x57\x01\xFD\x0E\x00\x4C\x13\x00\x00\x00\x00\x42\x6C\x5F\x1C\x0F\x37\xFD\x17\x00\x00\x00\x00\x00\x00\x00\x00\x02\x7A\x25\x00\x02\x78\x25\x00\x82\x16" },
{ "sontex_supercal_531_telegram1", 87, (const unsigned char *)"\x68\x51\x51\x68\x08\x01\x72\x24\x06\x42\x08\xEE\x4D\x0D\x04\x2C\x30\x00\x00\x04\x0E\x00\x00\x00\x00\x04\x14\x00\x00\x00\x00\x05\x5B\x00\x00\x00\x00\x05\x5F\x00\x00\x00\x00\x05\x3E\x00\x00\x00\x00\x05\x2B\x00\x00\x00\x00\xC4\x00\x0E\x00\x00\x00\x00\xC4\x00\x14\x00\x00\x00\x00\xC4\x40\x14\x00\x00\x00\x00\xC4\x80\x40\x14\x00\x00\x00\x00\x1F\x71\x16" },
{ "svm_f22_telegram1", 98, (const unsigned char *)"\x68\x5C\x5C\x68\x08\x01\x72\x89\x60\x00\x01\xCD\x4E\x09\x0C\x94\x70\x00\x00\x04\x06\x6E\x6D\x00\x00\x04\x13\x45\xC6\x09\x00\x84\x40\x13\x45\xC6\x09\x00\x02\x5B\xF3\x00\x02\x5F\xF3\x00\x02\x62\x00\x00\x04\x22\xE2\x18\x00\x00\x04\x26\xDB\x18\x00\x00\x04\x3B\x00\x00\x00\x00\x04\x2C\x00\x00\x00\x00\x04\x6D\x0C\x15\xA8\x22\x84\x40\x6E\x00\x00\x00\x00\x84\x80\x40\x6E\x00\x00\x00\x00\x1F\xA7\x16" },
{ "tch_telegramm1", 69, (const unsigned char *)"\x68\x3F\x3F\x68\x08\x4E\x72\x82\x99\x51\x21\x68\x50\x26\x04\x85\x00\x00\x00\x0C\x05\x00\x00\x00\x00\x04\x6D\x32\x0D\x1D\x09\x4C\x05\x00\x00\x00\x00\x42\x6C\x1D\x05\x0B\x3A\x00\x00\x00\x0A\x5A\x34\x02\x0A\x5E\x24\x02\x0C\x2A\x00\x00\x00\x00\x0C\x13\x64\x00\x00\x00\x1F\x09\x16" },
{ "tecson", 33, (const unsigned char *)"\x68\x1B\x1B\x68\x08\x00\x72\x12\x34\x56\x78\xA3\x50\x10\x01\x01\x00\x00\x00\x01\x67\x09\x0A\x14\x60\x45\x92\x10\x14\x88\x13\x18\x16" },
{ "wmbus-converted", 37, (const unsigned char *)"\x68\x1F\x1F\x68\x08\x00\x72\x31\x77\x67\x17\x2D\x2C\x01\x02\x00\x00\x00\x00\x2F\x2F\x04\x83\x3B\x88\x13\x00\x00\x2F\x2F\x2F\x2F\x2F\x2F\x2F\x00\x16" },
{ "application_busy", 10, (const unsigned char *)"\x68\x04\x04\x68\x08\x01\x70\x08\x81\x16" },
{ "buffer_too_long", 10, (const unsigned char *)"\x68\x04\x04\x68\x08\x01\x70\x02\x7B\x16" },
{ "error", 9, (const unsigned char *)"\x68\x03\x03\x68\x08\x01\x70\x79\x16" },
{ "premature_end_of_data1", 34, (const unsigned char *)"\x68\x1C\x1C\x68\x08\x02\x72\x78\x56\x34\x12\x24\x40\x01\x07\x55\x00\x00\x00\x03\x13\x15\x31\x00\xDA\x02\x3B\x13\x01\x8B\x60\x04\xC7\x16" },
{ "premature_end_of_data2", 36, (const unsigned char *)"\x68\x1E\x1E\x68\x08\x02\x72\x78\x56\x34\x12\x24\x40\x01\x07\x55\x00\x00\x00\x03\x13\x15\x31\x00\xDA\x02\x3B\x13\x01\x8B\x60\x04\x37\x18\x16\x16" },
{ "premature_end_of_dif1", 32, (const unsigned char *)"\x68\x1A\x1A\x68\x08\x02\x72\x78\x56\x34\x12\x24\x40\x01\x07\x55\x00\x00\x00\x03\x13\x15\x31\x00\xDA\x02\x3B\x13\x01\x8B\x63\x16" },
{ "premature_end_of_dif2", 33, (const unsigned char *)"\x68\x1B\x1B\x68\x08\x02\x72\x78\x56\x34\x12\x24\x40\x01\x07\x55\x00\x00\x00\x03\x13\x15\x31\x00\xDA\x02\x3B\x13\x01\x8B\x8B\xEE\x16" },
{ "premature_end_of_record", 10, (const unsigned char *)"\x68\x04\x04\x68\x08\x01\x70\x04\x7D\x16" },
{ "premature_end_of_var_vif1", 52, (const unsigned char *)"\x68\x2E\x2E\x68\x08\x05\x72\x34\x08\x00\x54\x96\x15\x32\x00\xF2\x00\x00\x00\x01\xFD\x1B\x00\x02\xFC\x03\x48\x52\x25\x74\xD4\x11\x22\xFC\x03\x48\x52\x25\x74\xC8\x11\x12\xFC\x13\x48\x52\x25\x74\xB4\x16\x5B\x16" },
{ "premature_end_of_vif1", 33, (const unsigned char *)"\x68\x1B\x1B\x68\x08\x02\x72\x78\x56\x34\x12\x24\x40\x01\x07\x55\x00\x00\x00\x03\x13\x15\x31\x00\xDA\x02\x3B\x13\x01\x8B\x60\xC3\x16" },
{ "too_long_var_vif", 52, (const unsigned char *)"\x68\x2E\x2E\x68\x08\x05\x72\x34\x08\x00\x54\x96\x15\x32\x00\xF2\x00\x00\x00\x01\xFD\x1B\x00\x02\xFC\x03\x48\x52\x25\x74\xD4\x11\x22\xFC\x03\x48\x52\x25\x74\xC8\x11\x12\xFC\xF3\x48\x52\x25\x74\xB4\x16\x3B\x16" },
{ "too_many_dife", 47, (const unsigned char *)"\x68\x29\x29\x68\x08\x02\x72\x78\x56\x34\x12\x24\x40\x01\x07\x55\x00\x00\x00\x03\x13\x15\x31\x00\xDA\x02\x3B\x13\x01\x8B\x8B\x8B\x8B\x8B\x8B\x8B\x8B\x8B\x8B\x8B\x60\x04\x37\x18\x02\x86\x16" },
{ "too_many_difes", 10, (const unsigned char *)"\x68\x04\x04\x68\x08\x01\x70\x05\x7E\x16" },
{ "too_many_readouts", 10, (const unsigned char *)"\x68\x04\x04\x68\x08\x01\x70\x09\x82\x16" },
{ "too_many_records", 10, (const unsigned char *)"\x68\x04\x04\x68\x08\x01\x70\x03\x7C\x16" },
{ "too_many_vife", 48, (const unsigned char *)"\x68\x2A\x2A\x68\x08\x02\x72\x78\x56\x34\x12\x24\x40\x01\x07\x55\x00\x00\x00\x03\x13\x15\x31\x00\xDA\x02\x3B\x13\x01\x8B\x60\x84\x84\x84\x84\x84\x84\x84\x84\x84\x84\x84\x04\x37\x18\x02\xC4\x16" },
{ "too_many_vifes", 10, (const unsigned char *)"\x68\x04\x04\x68\x08\x01\x70\x06\x7F\x16" },
{ "too_short_header", 14, (const unsigned char *)"\x68\x08\x08\x68\x08\x02\x72\x78\x56\x34\x12\x24\xB4\x16" },
{ "unimplemented_ci", 10, (const unsigned char *)"\x68\x04\x04\x68\x08\x01\x70\x01\x7A\x16" },
{ "unspecified_error", 10, (const unsigned char *)"\x68\x04\x04\x68\x08\x01\x70\x00\x79\x16" },
{ "invalid_length", 6, (const unsigned char *)"\x68\x00\x00\x68\x08\x16" },
{ "invalid_length2", 24, (const unsigned char *)"\x68\x12\x12\x68\x08\x01\x73\x93\x92\x91\x90\x10\x00\x05\x69\x31\x65\x00\x00\x69\x00\x00\x3F\x16" },
{ "manual_frame1", 9, (const unsigned char *)"\x04\x04\x68\x53\xFE\x50\x10\xB1\x16" },
{ "manual_frame4", 12, (const unsigned char *)"\x68\x06\x06\x68\x53\xFE\x51\x01\x7A\x08\x25\x16" },
{ "manual_frame5", 19, (const unsigned char *)"\x68\x0D\x0D\x68\x53\xFE\x51\x07\x79\x04\x03\x02\x01\x24\x40\x01\x04\x95\x16" },
{ "manual_frame6", 21, (const unsigned char *)"\x68\x0F\x0F\x68\x53\xFE\x51\x0C\x79\x78\x56\x34\x12\x0C\x06\x07\x01\x00\x00\x55\x16" },
{ "svm_f22_telegram2", 228, (const unsigned char *)"\x68\xDE\xDE\x68\x08\x01\x72\x89\x60\x00\x01\xCD\x4E\x09\x04\x18\x70\x00\x00\x1F\x45\x00\x3C\x01\x7F\xB0\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xC5\x00\x84\x11\x98\xA1\x01\x00\xC9\x18\x00\x00\x00\x00\x00\x01\x58\x04\x87\x24\x81\x01\x5B\x00\x00\x48\x18\x00\x63\x60\x7D\x7F\x3E\x5F\x60\x01\x00\x0A\x01\x02\x99\x00\x00\x0E\x50\xC3\x00\x00\x7F\x7F\x80\x01\x0A\x00\x00\xFF\x02\x00\x02\x18\x00\x00\x00\x00\x28\x10\x36\x20\x06\x02\xBE\x23\xBF\x23\x0A\x0B\x10\x28\x10\x36\x20\x06\x02\xBE\x23\xBF\x23\x0A\x0B\x10\x28\x10\x36\x00\x00\x00\x00\x00\x93\x92\xC9\x00\x10\x00\x00\x02\x89\x60\x00\x01\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\x08\x06\x08\x13\x08\x5A\x08\x5E\x08\x62\x08\x3D\x00\x00\x00\x00\x00\x00\x00\x10\x01\x00\x0D\x01\x45\x00\x46\x08\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x0C\x0A\x02\x25\x6E\x02\x6E\x6D\x00\x00\xF6\x16" },
};
#define N_FRAMES 103
