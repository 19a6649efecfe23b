import os
VERIF = os.path.dirname(os.path.abspath(__file__))
PROPS = {}
def P(pid, rule, configs, assumptions=()):
    PROPS[pid] = {"rule": rule, "configs": configs, "assumptions": list(assumptions)}
def C(name, *src, **kw):
    d = {"name": name, "src": list(src)}; d.update(kw); return d

P("C01", "every byte string over the stated alphabets and lengths, every truncation of generated nested elements; a case is distinct by the sequence of elements and consumed lengths observed",
  [C("ber", "c01_ber.cpp")])
P("C02", "every byte string over continuation/magnitude alphabets up to the length bound, all arc counts 0..63 with arcs of every size; distinct by decoded arcs",
  [C("oid", "c02_oid.cpp")])
P("C03", "all histories of push/pop/append/clear/free on two lists up to the depth bound, compared with plain sequences after every step; all byte strings over a structural alphabet and nested templates parsed and compared with an independent BER walk; distinct by list contents",
  [C("tlv", "c03_tlv.cpp")])
P("C04", "all data object list strings over a structural alphabet up to the length bound, all combinations of tag kind, value length, requested length, source placement and output capacity; distinct by the decoded list or built data",
  [C("dol", "c04_dol.cpp")])
P("C05", "all byte strings up to length 2, class alphabets beyond, boundary integers, all output capacities from 0 past the text length for every conversion; distinct by the exact text or value expected",
  [C("formats", "c05_formats.cpp")])
P("C06", "all presence/protocol structures of up to four interface-byte groups with check byte right, wrong or missing, all 256 values of each interface byte in every structure of up to three groups, all pairs of values of bytes that jointly determine a parameter, every truncation and extension, all historical-byte strings over a structural alphabet; distinct by leading bytes and verdict",
  [C("atr", "c06_atr.cpp")])
P("C07", "the same ATR spaces as C06 judged by an independent statement of EMV Level 1 section 8.3; distinct by leading bytes and verdict",
  [C("emvatr", "c06_atr.cpp", hflags=["-DEMV"])])
P("C08", "all byte strings over a structural alphabet up to the length bound, all 256 headers at every remaining length after every short prefix; distinct by decoded objects",
  [C("ctlv", "c08_ctlv.cpp")])
P("C09", "for every command case, all sequences of card/reader answers from a 24-answer menu (every kind of status, data, chaining, illegal and faulty answer) up to the depth bound, all caller capacities around the response sizes, all 65535 status words, all command lengths; each execution runs in lockstep with a reference terminal; distinct by the dialogue",
  [C("apdu", "c09_ttl.cpp")])
P("C10", "as C09 for T=0: 30-answer menu including ACK, single-byte ACK, NULL, wrong INS; byte-wise transfer followed by bulk transfer at every position of every Lc; distinct by the dialogue",
  [C("tpdu", "c09_ttl.cpp", hflags=["-DTPDU"])])
P("C11", "all name lengths and contents, all 65536 file/record pairs, all option data lengths, crossed with response lengths, status words, reader failures, both reader modes and output capacities; distinct by command and response",
  [C("cmd", "c11_cmd.cpp")])
P("C12", "the product of present/absent/malformed values of every field an application description is made of, for directory entries and selection data, in two orders and with directory code tables; every truncation, extension and single-byte alteration; all identifier pairs over a binary alphabet under both matching rules; all histories of list operations up to the depth bound and all priority vectors up to the length bound; distinct by display name, priority and list contents",
  [C("app", "c12_app.cpp")])
P("C13", "all cards made of a menu of answers per command (22 answers to selecting the directory, 20 directory records, 16 answers per SELECT) up to the stated numbers of records and SELECTs, against 8 sets of terminal identifiers, in APDU and T=0 mode; all status words at each step; every dialogue is replayed through an independent reference of EMV Book 1 section 12.3; distinct by dialogue",
  [C("candidates", "c13_candidates.cpp")])
P("C14", "all candidate lists of up to 4 applications (identifier lengths 5, 7, 16, 17), all indices around the list and two huge ones, with and without a previously selected application and its data, 25 card answers, sequences of repeated selections, both reader modes; all status words; every alteration and truncation of the confirmation; replayed through an independent reference of EMV Book 1 section 12.4; distinct by dialogue and outcome",
  [C("select", "c14_select.cpp")])
P("C15", "all data object lists of up to two (three) entries over 12 tags with lengths around the natural one and 16 source placements, all total data lengths across the encoding boundaries, list and response strings over structural alphabets, 32 answers, every alteration/truncation of responses, all status words, repeated invocation; replayed through an independent reference; distinct by command sent and resulting card data",
  [C("initiate", "c15_initiate.cpp")])
P("C16", "all single (thorough: paired) locator entries over boundary values, all record ranges, all locator lengths, 27 record contents at each of the first three (four) records of 9 locators, record strings over a structural alphabet, every alteration/truncation of a record, all status words, both reader modes; replayed through an independent reference; distinct by dialogue and resulting card data",
  [C("read", "c16_read.cpp")])
P("C17", "all histories of 28 session operations (each session call against cooperating and several kinds of failing cards, data added by the caller, reset, clear, re-initialisation, out-of-order and repeated calls) up to the depth bound, from a new session and after seven prefixes, in both reader modes, and all histories of three complete transactions with up to two (three) insertions or omissions; every call compared with an independent reference of the session, every history ended by a reset and a complete normal transaction; distinct by reference session state",
  [C("history", "c17_history.cpp")])
P("C18", "all ultimately periodic sequences of reader answers (25 answers in T=0 mode, 18 in APDU mode; period up to 2, prefix up to 2, thorough tier 3) against every transport command case and every session operation, plus application-level endless directories and endless SELECT next answers; the number of reader calls of each operation is bounded; distinct by operation, outcome and number of exchanges",
  [C("endless", "c18_endless.cpp", hang_ms=60000)])
P("C19", "every single failing allocation and reader call, and every pair of them (the second anywhere in what follows the first, including a repetition of the failed operation), of six complete transactions (directory, identifier list with partial selection, both answer formats, both reader modes); every failure must be reported, leave unaffected data alone, leak nothing, and a reset session must then repeat the fault-free transaction exactly; distinct by failure positions",
  [C("faults", "c19_faults.cpp")])
P("C20", "all 2^32 locator entries, all file bytes, pairs of entries, locators and lists of every length up to 299 with every kind of alteration at every entry, strings over structural alphabets, all 65536 verification rules at each position, amount corner values; distinct by the decoded entries",
  [C("locators", "c20_locators.cpp")])
P("C21", "every registered identifier prefix extended, truncated and altered at every byte with all values, all provider identifiers differing in their last two bytes, all two-byte extensions of every registered provider, all lengths 0 to 39; for issuer application data all lengths 0 to 32 crossed with all values of the identifying bytes in pairs and every other byte in every format; compared with an independent registration table and structure rules; distinct by attribution and length",
  [C("attribution", "c21_attribution.cpp")])
P("C22", "every rendering function of the library (44 field renderers, every tag through the tag lookup, ATR items, commands, status words) on uniform contents of every length, every byte at every value, structured contents truncated, extended and altered at every byte, at every output capacity from none to past the full text, with the output and the dead stack preset to different patterns; fields and outputs have exact bounds; distinct by function and text",
  [C("render", "c22_render.cpp", autoinit=False)])

P("C23", "every bit field of the library (23 kinds of field): all values of every byte and of every pair of bytes over two (four) backgrounds, compared with a reviewed table of what each bit and code means, texts and order exact; all codes of every coded field (response codes, verification rules and results, transaction and account types, entry modes, device types, product extensions, application names, locators, registered data, currencies and languages); wrong lengths; distinct by function and text",
  [C("flags", "c23_flags.cpp")])

P("C24", "every byte of every code table at every output capacity, pairs of bytes (every byte with one of each kind of byte; thorough tier all pairs), triples of every kind of byte, long strings of every length up to 68 at every capacity, all table numbers, sequences of conversions in different tables, for each of the three implementations; compared with code tables from an independent source; distinct by table and text",
  [C("boost", "c24_iso8859.cpp"), C("iconv", "c24_iso8859.cpp", iso8859="iconv"), C("simple", "c24_iso8859.cpp", iso8859="simple", hflags=["-DSIMPLE"])])

P("C25", "all numeric codes to 19999 and corner values, all two-byte strings, all three-letter (thorough: all three-byte) strings against the installed lists read independently, directly and through the fields that carry them; all histories of up to two initialisations (three to four over a smaller menu) from a menu of good, missing and malformed lists, every answer compared with the lists that may be in force; likewise for merchant categories; distinct by answer and history",
  [C("codes", "c25_codes.cpp")])

P("C26", "command cases: every first length byte with every length to 600 bytes, every extended length with all lengths about it; command texts: every class and instruction with 28 command shapes, every P1 and P2 of the commands that have any, every byte at every place of selected names, every output capacity; every status word at every capacity; every life cycle byte; compared with tables and rules written from ISO 7816 and EMV; distinct by text",
  [C("apdu", "c26_apdu.cpp", "apdu_shim.c")])

P("C30", "every tag of up to three bytes at the lengths that matter and the longer tags that resemble known ones, with the contents unknown; every tag of EMV with 45 samples and all their truncations, uniform contents of every byte and every length to 80, long contents to 519 bytes, every byte at every place of short contents, all two-byte contents, all two- and three-letter codes, and the discriminating bytes of tags that kernels share; names and formats compared with a reviewed table and texts with the dedicated decoders; distinct by tag and text",
  [C("fields", "c30_fields.cpp")])

P("C27", "every source mask to 255 and corner masks with every level, no, one or another observer and every kind of event from every source; all sequences of three (four) configurations from a menu, configurations and events issued by the observer itself; every message length to 1100 and data lengths to 4000; time stamps at 320 moments of a controlled clock; session histories (two, thorough three operations after four prefixes) and transactions with one of 167 damages to any exchange, each run under 13 debug configurations and compared with each other event by event and, for histories, with the reference of the session; the session histories of C17 with debugging compiled out; distinct by configuration and session",
  [C("debug", "c27_debug.cpp", "c27_shim.c", ldflags=["-Wl,--wrap=timespec_get,--wrap=clock_gettime,--wrap=gettimeofday"]), C("off", "c17_history.cpp", debug=False)])
P("C29", "initialisation with 0 to 4 readers, reader lists that change between calls, and every placement of up to two (thorough three) refused service calls in three ways, and of one or two failing allocations; every list of up to three (four) features over a tag and length alphabet with all truncations, lists to beyond the buffer; structure lengths; every property string to five (six) bytes over ten byte values and long ones, each property into every buffer size; every 16-bit state; all state combinations of up to five readers, the card in each of up to 40 readers; 58 cards with refused calls anywhere; all exchange sizes to 261; all histories of four (five) calls over two readers with one (two) refused service calls; distinct by feature list, property string and connection state",
  [C("pcsc", "c29_pcsc.cpp", pcsc=True, hflags=["-I/usr/include/PCSC"])])

P("C28", "main() of the tool executed on all TLV strings up to length 5 (6) over structural octets and all blocks of 4 (5) octets before padding, all pairs of 40 fields in and around templates of every length form, cut and damaged at every place, all tags with 16 contents, all amounts of padding, long values about every buffer size, nesting to 30000 levels; all lists to length 6 (7); the ATR structures and historical bytes of C06; all status words; every single-field option with all sizes, all byte values and pairs of byte values of two-byte fields; all country, currency and language codes; every byte and length of text in every code table; all hexadecimal texts to length 5 (6) over digits and non-digits, every byte at every place of one; standard input of every size and chunking with read errors; a menu of command lines, also as real processes; the printing functions on lists, applications, exchanges and debug events; exact output compared with an independent printer; distinct by shape of the output",
  [C("decode", "c28_decode.cpp", tools=["emv-decode.c", "print_helpers.c"], tool_flags={"emv-decode.c": ["-Dmain=decode_main", "-include", VERIF + "/harness/c28_sect.h"], "print_helpers.c": ["-include", VERIF + "/harness/c28_sect.h"]}, ldflags=["-Wl,--wrap=exit,--wrap=argp_error,--wrap=argp_usage,--wrap=emv_strings_init"], hang_ms=90000)])

P("C31", "eight card profiles with every user dialogue of up to three answers from a menu of twelve, and eleven unexpected card answers at each of the first 16 commands (thorough: and a second one anywhere); cards that refuse up to three applications in three ways with dialogues of up to six (seven) answers; answers built from all 256 characters and large numbers; amount pairs over 37 corner values, all transaction types and malformed arguments; 24 moments; all debug source and level selections in three spellings with and without verbosity; up to 26 candidates and 24 readers with each one chosen; all states and features of up to three readers, reader properties, other cards, and every placement of up to two (three) refused service calls; distinct by the exchange and what is displayed",
  [C("tool", "c31_tool.cpp", pcsc=True, hflags=["-I/usr/include/PCSC"], tools=["emv-tool.c", "print_helpers.c"], tool_flags={"emv-tool.c": ["-Dmain=tool_main", "-include", VERIF + "/harness/c28_sect.h"], "print_helpers.c": ["-include", VERIF + "/harness/c28_sect.h"]}, ldflags=["-Wl,--wrap=exit,--wrap=argp_error,--wrap=argp_usage,--wrap=emv_strings_init,--wrap=time,--wrap=print_emv_debug,--wrap=print_emv_debug_verbose"], hang_ms=90000)])
P("C32", "texts of all fields of the decoding spaces (sequences, templates, damage, truncation, padding, nesting) and all their rows selected; all 65536 characters at six places; all texts of four (six) pieces out of ten and all layouts of a text in lines; all histories of three (four) out of 20 actions from 12 texts under two (eight) option states and, from one, all of two actions and three (four) more out of nine; all one and two (three) byte tags; every option state across three starts; given texts and command lines; distinct by rows, options and selection",
  [C("viewer", "c32_viewer.cpp", qt=True, ldflags=["-Wl,--wrap=emv_strings_init,--wrap=_ZN12QApplication4execEv"], hang_ms=90000)])
P("C33", "each step by itself: all cards of the answer menus (22 directory answers, 20 record answers, 16 application answers, 32 processing options answers, 27 records) to the depth bound, in both reader modes and onto empty and filled lists; all status words at each step; all response strings to length 6 (7) over structural octets and all format 1 lengths; name lengths, data lengths, locator entries over corner values and all locator lengths; processing options followed by reading into the same list; distinct by dialogue and result",
  [C("tal", "c33_tal.cpp")])
P("C34", "the ATR spaces of C06 (all presence/protocol structures of up to four groups, all 256 values of each interface byte in every structure of up to three groups, all pairs of values of related bytes, historical bytes), the texts of every byte, present or absent, compared with texts composed from an independent ISO 7816-3 reading; every buffer size from 1 past the length of each text for all structures and all values of each byte; all historical categories and both conventions; distinct by interface byte values and category",
  [C("atrtext", "c34_atrtext.cpp")])
