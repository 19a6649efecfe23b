import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","BER decoding is exact for every byte string",
"Decoding any byte string either fails or yields precisely the tag, class, constructed flag, length and value location that ISO 8825-1 assigns to the element at its start, and the number of bytes that element occupies, including nested indefinite-length elements with their end-of-contents octets. Iterating yields the elements of a buffer in order, never an element the buffer does not hold in full, and never touches a byte outside the buffer. Truncated, over-long or otherwise malformed encodings are reported as errors and an exhausted buffer as end of data.",
["inputs"],"every byte string up to the bound over an alphabet holding every structurally significant octet (high tag forms, short, long, indefinite and over-long lengths, end-of-contents)",
"The tests decode a handful of hand written buffers; no test nests indefinite lengths, truncates every encoding at every offset or combines long tags with long lengths.",
["src/iso8825_ber.c","src/iso8825_ber.h"],[("iso8825_ber_tag_decode","src/iso8825_ber.c"),("iso8825_ber_decode","src/iso8825_ber.c"),("iso8825_ber_itr_next","src/iso8825_ber.c")],["return value and output of iso8825_ber_decode / iso8825_ber_itr_next"])
p("C02","Object identifier decoding is exact and never exceeds its output",
"Decoding any encoded object identifier yields its arcs exactly as ISO 8825-1 defines, including first arc 2 with a second arc of 40 or more. An encoding with more arcs than the result can hold, an arc that does not fit 32 bits, or a last arc whose continuation bit is still set is an error, and nothing outside the result is ever written.",
["inputs"],"every byte string up to the bound over the octets that matter for continuation and magnitude",
"Tests decode two or three well formed identifiers; none has more than a few arcs, none is truncated.",
["src/iso8825_ber.c"],[("iso8825_ber_oid_decode","src/iso8825_ber.c")],["output object identifier and return value"])
p("C03","Parsing and list operations keep exactly the data fields, in order",
"Parsing EMV data into a field list appends each primitive field, at any nesting depth, in encoding order with its exact tag, length and value, leaving out template wrappers, and reports malformed data as an error without inventing fields: at most a prefix of the fields has then been appended. Any sequence of push, pop, find, append, duplicate detection and clear on field lists behaves like the same operations on an ordinary sequence that owns copies of its values, and a field still followed by others in a list cannot be freed individually.",
["inputs","histories"],"every short byte string over a structural alphabet, and every sequence of list operations up to the bound on two lists and a few tags",
"Tests parse a few captured card records and never exercise sequences of mixed list operations, so stale tail pointers or lost elements after a pop or an append go unseen.",
["src/emv_tlv.c","src/emv_tlv.h"],[("emv_tlv_parse","src/emv_tlv.c"),("emv_tlv_list_push/pop/find/append/clear","src/emv_tlv.c"),("emv_tlv_list_has_duplicate","src/emv_tlv.c")],["list contents by traversal"],[("front/back pointers","singly linked list with tail","src/emv_tlv.h")])
p("C04","Data object lists produce exactly the data the card asked for",
"For every data object list and every set of data sources, the built data is the concatenation, in list order, of each requested field taken from the first source that has it, zero filled when absent, truncated or padded to the requested length on the side EMV requires (numeric terminal-sourced fields on the left, all other fields on the right). The computed length always equals the built length, a buffer that is too small is reported and never exceeded, and a malformed list is an error.",
["inputs","configurations"],"every list of up to the bound of entries over tags of each format, lengths around the value length, source presence combinations and output capacities",
"The tests build a few lists with values of exactly the requested length from one or two sources.",
["src/emv_dol.c","src/emv_tlv.c"],[("emv_dol_decode/itr","src/emv_dol.c"),("emv_dol_compute_data_length","src/emv_dol.c"),("emv_dol_build_data","src/emv_dol.c"),("emv_tlv_is_terminal_format_n","src/emv_tlv.c")],["data and length output of emv_dol_build_data"])
p("C05","Field format conversions are exact, and never wrap or overrun",
"Converting between integers or text and EMV formats n, cn, b, a, an and ans yields the exact value for every representable input, and round trips. Integer values that are not representable in the result are reported as errors rather than wrapped, over-long digit text is truncated only on the documented side (cn keeps the leftmost, n the rightmost digits), and text results are terminated within the given buffer for every buffer size.",
["inputs"],"every short byte string over digit, padding, separator and illegal octets, every boundary integer, every buffer size around the result length",
"Tests convert a few typical values with ample buffers; carry, overflow, truncation and tiny-buffer behaviour is not sampled.",
["src/emv_tlv.c","src/emv_strings.c","src/emv_strings.h"],[("emv_format_*_to_*","src/emv_tlv.c"),("emv_format_*_get_string","src/emv_strings.c"),("emv_amount_get_string / date / time","src/emv_strings.c")],["string/integer outputs"])
p("C06","ATR parsing yields exactly what ISO 7816-3 encodes",
"For every ATR, parsing either rejects it or reports exactly the interface bytes present, the derived parameters (clock, baud, guard time, protocol and waiting time settings, with defaults where bytes are absent), the historical bytes and status indicator, and the check byte, as ISO 7816-3 and 7816-4 define; of several interface bytes for the same protocol the first counts. ATRs that are truncated or carry an invalid convention, an unsupported protocol, a reserved parameter value, malformed historical data or a missing or wrong mandatory check byte are rejected, and no byte outside the ATR influences the result.",
["inputs"],"every combination of TS, T0 and TDi presence bits and protocols with values from per-byte alphabets, every truncation and extension, all 256 values of each parameter byte",
"Two dozen sample ATRs are tested; presence-bit combinations, truncation at each offset and every parameter value are not.",
["src/iso7816.c","src/iso7816.h"],[("iso7816_atr_parse","src/iso7816.c")],["struct iso7816_atr_info_t"])
p("C07","Exactly the ATRs permitted for EMV contact level 1 are accepted",
"An ATR is accepted for EMV processing exactly when EMV Level 1 permits it (interface character presence, values of TA1, TB1, TC1, TD1, TA2, TC2, TD2, TA3, TB3, TC3 and the check character); anything else is reported as a card error, and an unparsable ATR never as acceptable.",
["inputs"],"all presence-bit combinations crossed with all values of each constrained interface byte",
"The ATR acceptance test tries a few dozen ATRs and changes one byte at a time.",
["src/emv.c","src/iso7816.c"],[("emv_atr_parse","src/emv.c")],["return value of emv_atr_parse"])
p("C08","COMPACT-TLV iteration yields exactly the encoded objects",
"Iterating any historical-bytes string yields each COMPACT-TLV object in order with its exact tag, length and value, ends at the end of the data, and reports an object that runs past the end as an error without exposing bytes beyond it.",
["inputs"],"every byte string up to the bound over a structural alphabet, plus all 256 header bytes at every remaining length",
"Compact TLV is only reached through ATR samples.",
["src/iso7816_compact_tlv.c"],[("iso7816_compact_tlv_itr_next","src/iso7816_compact_tlv.c")],["iterator outputs"])
p("C09","APDU-mode exchanges return the card's response, all of it and nothing else",
"With a reader that exchanges whole APDUs, every command is sent to the card exactly as supplied, and the response delivered to the caller is exactly the card's data and final status word, following any chain of 'more data available' and 'wrong length' answers required by ISO 7816. Malformed commands, reader failures, responses shorter than a status word, data where none is permitted and responses that exceed the caller's buffer are reported as errors, and no buffer is ever exceeded.",
["inputs","histories","fault_sequences"],"every command case, crossed with every sequence of card answers from a small menu up to the bound (including faults and illegal answers) and every caller buffer capacity near the response length",
"The tests replay a few scripted dialogues; combinations of warnings, 61xx/6Cxx chains, illegal lengths and small buffers are not reached.",
["src/emv_ttl.c","src/iso7816.c","src/iso7816_apdu.h"],[("emv_ttl_trx","src/emv_ttl.c"),("iso7816_apdu_case","src/iso7816.c")],["bytes passed to the card reader callback","R-APDU output"])
p("C10","T=0 exchanges follow the procedure-byte protocol for every card behaviour",
"With a reader that exchanges TPDUs, for every command and every sequence of procedure bytes (ACK of all data, ACK of one byte, NULL, 60, 61xx, 6Cxx, warnings, errors) each command header and each data byte is sent exactly once and in order, GET RESPONSE and re-sent headers carry the length the card announced, and the delivered response is the concatenated data and the status word EMV prescribes. Protocol violations and reader failures, including a bare NULL byte that the reader should have absorbed, are reported as errors and never overrun a buffer.",
["inputs","histories","fault_sequences"],"every command case and every sequence of card/reader answers up to the bound drawn from all kinds of procedure bytes and faults, crossed with caller buffer capacities",
"Tests follow one scripted dialogue per case; mixed single-byte and bulk transfers, warnings inside chains and truncated answers are not covered.",
["src/emv_ttl.c"],[("emv_ttl_trx TPDU state machine","src/emv_ttl.c")],["bytes passed to the card reader callback","R-APDU output"])
p("C11","Card commands are encoded exactly and their outputs stay within bounds",
"Selecting by name (first and next), reading a record and requesting processing options send precisely the command EMV prescribes for the given arguments, reject arguments the command cannot carry, and return exactly the card's response data and status word within the caller's buffer.",
["inputs","fault_sequences"],"every name length, every record number and file identifier, every processing-options data length, crossed with card response lengths, status words and caller capacities",
"Tests issue one or two instances of each command with maximal buffers.",
["src/emv_ttl.c"],[("emv_ttl_select_by_df_name(_next)","src/emv_ttl.c"),("emv_ttl_read_record","src/emv_ttl.c"),("emv_ttl_get_processing_options","src/emv_ttl.c")],["bytes passed to the card reader callback","outputs"])
p("C12","Applications are described, matched and ordered as EMV requires",
"An application built from directory or selection data always carries the identifier, priority, confirmation flag and display name (preferred name when usable, else label, else identifier) that its data fields determine, or is rejected when mandatory fields are missing or malformed. It is considered supported exactly when a terminal identifier matches under its exact or partial matching rule, and application lists behave as sequences under push, pop, remove and stable priority ordering, with cardholder selection required exactly when the list demands it.",
["inputs","histories"],"combinations of present, absent and malformed application fields, all identifier pairs up to the bound under both matching rules, and every sequence of list operations up to the bound over all priorities",
"A few captured directory entries are tested; index removal of tail entries, equal priorities, empty labels and partial matches shorter than the identifier are not enumerated.",
["src/emv_app.c","src/emv_app.h"],[("emv_app_create_from_pse/fci","src/emv_app.c"),("emv_app_is_supported","src/emv_app.c"),("emv_app_list_*","src/emv_app.c")],["struct emv_app_t","list contents"])
p("C13","The candidate list holds exactly the card's supported applications",
"For every card, building the candidate list yields exactly the applications the terminal supports that the card offers through its payment system directory or, failing that, through selection by each supported identifier, leaving out those the card reports as blocked, ordered by priority. A blocked card, a transport failure and the absence of mutually supported applications are each reported as their own outcome, and afterwards the session is in the corresponding state.",
["inputs","histories","fault_sequences"],"every card from a family of abstract cards (directory contents, blocked and duplicate applications, status words at each step, malformed records) within the bound, against every set of supported identifiers from a small menu",
"The test replays about a dozen fixed card dialogues.",
["src/emv.c","src/emv_tal.c","src/emv_app.c"],[("emv_build_candidate_list","src/emv.c"),("emv_tal_read_pse","src/emv_tal.c"),("emv_tal_find_supported_apps","src/emv_tal.c")],["application list and return value; commands seen by the card"])
p("C14","Application selection picks the requested application or recovers as specified",
"For every candidate list, index and card answer, selection selects exactly the application requested, provided the card confirms that very identifier, and removes it from the candidates whether or not it succeeds. If it fails, the outcome tells the caller to try another candidate, that none remain, that the card is blocked, or that the transport failed, and no previously selected application or its data survives.",
["inputs","histories","fault_sequences"],"every candidate list up to the bound, every index (valid or not), every card answer from a menu, and every sequence of repeated selections",
"The test replays fixed dialogues with one failure each.",
["src/emv.c","src/emv_tal.c"],[("emv_select_application","src/emv.c"),("emv_tal_select_app","src/emv_tal.c")],["ctx selected application, candidate list, return value"])
p("C15","Initiating processing sends the right data and yields a complete context",
"For every selected application and card answer, the request carries exactly the data the application's processing data object list demands, taken from transaction parameters, configuration and terminal data in that order. On success the card data holds the application's fields plus the answer's, with the interchange profile and file locator present, and the terminal data holds the freshly initialised fields; conditions not satisfied are reported as such, and every malformed answer as a card error.",
["inputs","histories","fault_sequences"],"every data object list from a family, every answer format and malformation from a menu, every status word class, repeated invocation",
"The test replays around ten fixed dialogues.",
["src/emv.c","src/emv_tal.c","src/emv_dol.c"],[("emv_initiate_application_processing","src/emv.c"),("emv_tal_get_processing_options","src/emv_tal.c")],["ctx lists, bytes sent to the card, return value"])
p("C16","Reading application data obtains exactly the records the locator names",
"For every file locator, reading application data requests exactly the records it names, in order and once each, and on success adds precisely their fields to the card data. Invalid locators, failed reads, malformed records, duplicate or missing mandatory fields end in a card error that leaves the previously held card data untouched, and data from a failed attempt is never retained.",
["inputs","histories","fault_sequences"],"every file locator within the bound (including boundary record and file numbers), every record content and status word from a menu",
"The test replays around ten fixed dialogues; boundary record numbers and overlapping ranges do not occur.",
["src/emv.c","src/emv_tal.c","src/emv_fields.c"],[("emv_read_application_data","src/emv.c"),("emv_tal_read_afl_records","src/emv_tal.c"),("emv_afl_itr_next","src/emv_fields.c")],["ctx icc list, READ RECORD commands, return value"])
p("C17","Any history of session calls is memory-safe, leak-free and history-independent",
"Any order of session calls (initialise, configure, build candidate list, select, initiate processing, read data, reset, clear), against cooperating or failing cards and including calls made out of order or repeated, neither touches freed or foreign memory nor leaks. A call made without its prerequisites is refused, and after reset or clear a session behaves exactly like a new one apart from retained configuration.",
["histories","fault_sequences"],"every sequence of session calls up to the bound crossed with card behaviours",
"Tests run the single intended order on fresh contexts.",
["src/emv.c","src/emv_app.c","src/emv_tlv.c"],[("emv_ctx_init/reset/clear","src/emv.c"),("session functions","src/emv.c")],["return values, context contents, allocator balance"],[("struct emv_ctx_t","session state","src/emv.h")])
p("C18","No card can keep the library busy forever",
"Whatever a card answers, and however long it keeps answering the same way, every transport and session operation completes after a bounded number of exchanges, even if the card never signals the end of records, applications or response data.",
["histories","fault_sequences"],"all ultimately periodic card behaviours with prefix and period within the bound over an alphabet of answers, at every session step and transport mode",
"Test cards always end their lists politely.",
["src/emv_ttl.c","src/emv_tal.c","src/emv.c"],[("procedure loops","src/emv_ttl.c"),("record and SELECT-next loops","src/emv_tal.c")],["number of reader callbacks per operation"])
p("C19","Failure of any allocation or reader call is reported and leaves a sound state",
"If any single memory allocation or card reader call fails at any point of a transaction, the operation under way reports failure and does not claim success with incomplete data, nothing is leaked or used after release, and the session can be reset and used again with normal results.",
["fault_sequences","crash_points"],"every single (and pair of) failing allocation or reader call over the complete allocation and exchange history of a set of transactions",
"No test injects a failure.",
["src/emv_tlv.c","src/emv_app.c","src/emv_tal.c","src/emv.c","src/emv_ttl.c"],[("error paths","src/emv*.c")],["return codes, allocator balance, follow-up transaction"])
p("C20","File locators and verification-method lists are decoded exactly",
"For every byte string, iterating a file locator or a cardholder verification method list yields exactly its encoded entries and amounts in order, accepts exactly the well-formed ones, reports the rest as errors and ends at the end of the data.",
["inputs"],"every byte value in every entry position (one and two entries) and every length up to the bound",
"Tests iterate two or three valid lists and a few invalid ones.",
["src/emv_fields.c"],[("emv_afl_itr_init/next","src/emv_fields.c"),("emv_cvmlist_itr_init/next","src/emv_fields.c")],["iterator outputs"])
p("C21","Identifiers and issuer application data are attributed to the right scheme",
"For every application identifier the reported scheme and product are those of the longest registered prefix it carries, and unknown otherwise; for every issuer application data value the reported format, and the cryptogram version and derivation key index shown for it, are those its structure prescribes, and malformed values are never attributed.",
["inputs"],"all identifiers that extend, truncate or alter by one byte each registered prefix; all issuer application data up to the bound over structurally relevant bytes and every length",
"Tests check a list of known identifiers only.",
["src/emv_fields.c","src/emv_fields.h"],[("emv_aid_get_info","src/emv_fields.c"),("emv_iad_get_format","src/emv_fields.c")],["info structs"])
p("C22","Text rendering never reads or writes out of bounds, for any field and buffer",
"Every function that renders a field, list, status word, command or ATR item as text, given any content and length of the field and any size of output buffer, reads only the field, writes only the buffer, never depends on stale memory, and leaves terminated text whenever it reports success into a non-empty buffer. Text produced in a smaller buffer is a prefix of, or line-wise contained in, the text produced in a larger one.",
["inputs","configurations"],"every known tag and rendering function, every value length up to the bound with corner values, every output size from zero up past the text length",
"Tests render sample values into large buffers.",
["src/emv_strings.c","src/iso7816_strings.c","src/emv_tlv.c"],[("emv_tlv_get_info and the *_get_string(_list) functions","src/emv_strings.c"),("iso7816_*_get_string","src/iso7816_strings.c")],["output buffer with guards"])
p("C23","Every flag and code of a field is rendered with its own meaning",
"For every bit-mapped or coded field (verification results, status information, interchange profile, usage control, terminal capabilities and type, transaction types, cardholder verification and the scheme specific indicators) the rendered list contains exactly the descriptions of the bits and codes that are set, each description independent of unrelated bits, in field order, and every length other than the field's own is refused.",
["inputs"],"all values of every byte with the other bytes at corner values (all pairs of bytes in the thorough tier), checked compositionally and against keyword tables from EMV",
"The debug and string tests cover a handful of sample fields out of billions of values.",
["src/emv_strings.c"],[("emv_tvr_get_string_list and friends","src/emv_strings.c")],["string lists"])
p("C24","Character set conversion is exact for every byte of every code table",
"Converting text in any ISO 8859 code table 1 to 15 (except 12) supported by the build yields the UTF-8 encoding of exactly the Unicode characters that table assigns, terminated, for every implementation variant. Output that does not fit is refused or cut between characters and never exceeds the buffer, and unsupported code tables are refused.",
["inputs","configurations"],"every byte in every code table, every pair of bytes from character classes, every output size, for each of the three implementations",
"Tests convert one sample string per code table with the build's single implementation.",
["src/iso8859_boost.cpp","src/iso8859_iconv.c","src/iso8859_simple.c"],[("iso8859_to_utf8","src/iso8859_*.c*")],["UTF-8 output"])
p("C25","Country, currency, language and category lookups agree with the source data",
"After initialisation every country, currency and language code (numeric, alpha-2, alpha-3) resolves to exactly the name in the installed ISO code lists and every other code to nothing, likewise for merchant categories. Repeated initialisation does not change any answer, and missing or malformed source data is reported and never crashes.",
["inputs","configurations","histories"],"every code in each code space, all initialisation histories up to the bound, and malformed variants of the source data",
"The tests look up a dozen codes after one initialisation.",
["src/isocodes_lookup.cpp","src/mcc_lookup.cpp"],[("isocodes_init and lookups","src/isocodes_lookup.cpp"),("mcc_init/lookup","src/mcc_lookup.cpp")],["lookup results"])
p("C26","Commands and status words are described as ISO 7816 and EMV define them",
"For every possible status word the description states the class and meaning ISO 7816-4 assigns, including remaining lengths, exact lengths and counters; for every command header the command name, class and parameters are described, and the command case and length classification agree with the structure of the command bytes.",
["inputs"],"all 65536 status words, all command headers over the relevant class and instruction space, and all command lengths",
"Tests check a few status words and commands.",
["src/iso7816_strings.c","src/emv_strings.c","src/iso7816.c","src/iso7816_apdu.h"],[("iso7816_sw1sw2_get_string","src/iso7816_strings.c"),("iso7816_capdu_get_string / emv_capdu_get_string","src/iso7816_strings.c"),("iso7816_apdu_case","src/iso7816.c")],["text and enum outputs"])
p("C27","Debug output reaches the observer exactly as filtered, and changes nothing",
"A debug event reaches the registered observer exactly when its source is enabled and its level is within the configured maximum, with its text and data unaltered its message truncated only as needed and a time stamp in microseconds (modulo 2^32), for every configuration and reconfiguration order. Whether and how debugging is configured never changes what the card is sent or what any operation returns.",
["configurations","histories"],"all source masks, levels and event types, all reconfiguration sequences up to the bound, and complete transactions under every debug configuration",
"The debug test checks a few combinations; no test compares behaviour with and without debugging.",
["src/emv_debug.c","src/emv_debug.h"],[("emv_debug_init / emv_debug_internal","src/emv_debug.c")],["callback invocations"])
p("C28","The decoding tool reports every input faithfully and fails cleanly",
"For every command-line input the decoding tool either prints each data element of the input once, in order and at its nesting level, or reports invalid input with an error; malformed hexadecimal, truncated data, trailing bytes and superfluous arguments are never silently dropped or misread, and the tool never crashes. Malformed TLV data ends the output with its offset and the bytes that remain, and the text shown for a value is complete and is the text the library gives for that value.",
["inputs","configurations"],"every decoding option crossed with every input from the structural alphabets up to the bound, every way of giving the input, and every misuse of the command line from a menu",
"Tests cover a few decoding options with fixed expected text.",
["tools/emv-decode.c","tools/print_helpers.c"],[("main/parse_hex","tools/emv-decode.c"),("print_ber_buf / print_emv_buf","tools/print_helpers.c")],["stdout, stderr and exit status of emv-decode"])
p("C29","The PC/SC layer is faithful and safe for every reader and service behaviour",
"For every behaviour of the PC/SC service (readers, features, properties, card types, errors at any call, failing allocations) the reader layer reports features, properties, states, card type, ATR and responses exactly as supplied, releases every connection it opened, and turns every service error or malformed reply into a reported error without touching memory outside the reply or the caller's buffer.",
["histories","fault_sequences","configurations"],"every single service error at each call, every malformed feature or property reply within the bound, every call sequence up to the bound",
"No test exercises this layer: it needs hardware.",
["src/pcsc.c"],[("pcsc_*","src/pcsc.c")],["SCard* calls made and outputs"])
p("C30","Each known field is named and classified consistently",
"For every tag defined by EMV that the library knows, the description names that field and its format class, templates are presented as containers, unknown tags are presented without a name, and the text value shown for a field equals the text its dedicated decoder or format produces for the same bytes.",
["inputs"],"every tag from 0 to 0xFFFF plus the three-byte tags in use, crossed with value lengths and corner values",
"Tests sample a few tags.",
["src/emv_strings.c","src/emv_tags.h"],[("emv_tlv_get_info","src/emv_strings.c")],["struct emv_tlv_info_t and value string"])
p("C31","The terminal tool conducts exactly the transaction that was asked for",
"For every command line, user dialogue, card and reader behaviour, emv-tool performs the transaction with exactly the given type, amounts and the moment's date, refuses unusable parameters before addressing the card, and offers the candidates as numbered, taking each line of input as one answer that selects exactly the numbered application or is refused. What it displays (readers, candidates, outcomes, card and terminal data, debug events of the selected sources and levels) is what took place, and it always ends, at the latest when its input does.",
["inputs","histories","fault_sequences","configurations"],"all command line arguments and user answers over the menus, all single (two) unexpected card answers and service failures, all debug selections",
"No test runs this tool: it needs a reader, a card and a user.",
["tools/emv-tool.c","tools/print_helpers.c"],[("main / argp_parser_helper","tools/emv-tool.c"),("emv_txn_load_config / emv_txn_load_params","tools/emv-tool.c"),("print_*","tools/print_helpers.c")],["commands sent to the card, stdout and stderr of emv-tool"])
p("C32","The viewer shows exactly the data in its text, whatever the history",
"Once the update that follows an edit has taken place, the viewer's tree shows each data element of the text once, in order, at its nesting level and with the decoding the options select, and whatever cannot be decoded as remaining invalid data, for every text, option state and order of edits, undo, option changes and selections. Selecting an element marks exactly its characters in the text and shows its description; the highlighting of tags, invalid and non-hexadecimal characters is that of the current text. The given text and stored options take effect at the start, and no input makes the viewer crash.",
["inputs","histories","configurations"],"all texts over the structural alphabets with every layout, every character at each place, all histories of user actions and delayed updates up to the bound, all option states across restarts, and command lines",
"The viewer has no tests.",
["viewer/emv-viewer-mainwindow.cpp","viewer/emvhighlighter.cpp","viewer/emvtreeview.cpp","viewer/emvtreeitem.cpp","viewer/emv-viewer.cpp"],[("EmvViewerMainWindow","viewer/emv-viewer-mainwindow.cpp"),("EmvHighlighter::parseBlocks / highlightBlock","viewer/emvhighlighter.cpp"),("EmvTreeView::populateItems","viewer/emvtreeview.cpp")],["tree rows, text formats and description of the main window"])
p("C33","Each step of application selection and reading is exact when used by itself",
"Used by themselves and in any order, the terminal application layer's steps (read the payment system directory, look up the supported applications one by one, select one application, get processing options, read the located records) send exactly the commands that their arguments call for and give exactly the applications and fields that the card's answers contain, added in order after what the given list already holds. Their result distinguishes success, card or reader failure, invalid card data, blocked card or application and absent or unsupported application exactly as the answers do, outputs are given only with success, and unusable arguments are refused before the card is addressed.",
["inputs","histories","configurations"],"all answers of the cards over the menus at every step, every status word at every step, all short response strings, all argument lengths and lists, both reader modes",
"The tests of this layer replay a few fixed dialogues.",
["src/emv_tal.c"],[("emv_tal_read_pse","src/emv_tal.c"),("emv_tal_find_supported_apps","src/emv_tal.c"),("emv_tal_select_app","src/emv_tal.c"),("emv_tal_get_processing_options","src/emv_tal.c"),("emv_tal_read_afl_records","src/emv_tal.c")],["commands sent, result codes, application and field lists"])
p("C34","What is said about an answer to reset is what it means",
"For every valid answer to reset, the text for its convention, structure, interface bytes and historical category states exactly the parameters that ISO 7816-3 derives from the answer: rates and frequencies, mode and protocol, voltage and current, guard and waiting times, clock stop, card classes, information field size and error detection, including the defaults that apply where a byte is absent. Absent bytes that have no default and positions that do not exist are not described, and in a short buffer the text is the terminated beginning of the whole one.",
["inputs","configurations"],"all interface byte structures, all values of each byte in every structure of up to three groups and of related pairs, all historical categories, all buffer sizes",
"Tests show the texts of a few cards.",
["src/iso7816.c"],[("iso7816_atr_*_get_string","src/iso7816.c")],["texts of iso7816_atr_*_get_string()"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
import re
for x in P:
    n=len(re.findall(r'\.(\s|$)',x['statement']))
    if n>3: print(x['id'],n)
