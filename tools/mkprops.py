import json
P=[]
def p(id,title,statement,over,qtext,why,files,state,mech,obs,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
ENC="asn1crt/asn1crt_encoding.c"; UP="asn1crt/asn1crt_encoding_uper.c"; AC="asn1crt/asn1crt_encoding_acn.c"; ACH="asn1crt/asn1crt_encoding_acn.h"; XE="asn1crt/asn1crt_encoding_xer.c"
p("S01","Streamed encoding equals whole-buffer encoding",
"When a C program built in streaming mode encodes through a buffer smaller than the message, the blocks handed to the push callback plus the final flush, concatenated in order, are byte-for-byte the encoding produced into one sufficiently large buffer. This holds for every buffer size, every bit alignment and every sequence of encoded items: no bit is lost, repeated, reordered or left over from an earlier block.",
["schedules","inputs","histories"],"all message sequences, all buffer capacities from one byte up, all bit phases at which an item meets the end of the buffer",
"The committed tests never build with streaming enabled; the number of (item kind, bit phase, remaining room) combinations is far beyond example tests.",
[ENC,UP,AC],[("stream position","next byte and bit to be written inside the current block","asn1crt/asn1crt.h BitStream.currentByte/currentBit"),("block capacity","bytes in the user's block","asn1crt/asn1crt.h BitStream.count")],
[("push on full block",ENC+" bitstream_push_data_if_required"),("item encoders",ENC+" BitStream_Append*/Encode*")],["blocks received by the user's push callback","stream position at the end of encoding"])
p("S02","Streamed decoding does not depend on how the bytes arrive",
"When a C program built in streaming mode decodes through a refillable buffer, the verdict, the decoded value and the number of bits consumed are the same as when the whole message is available in one buffer. This holds for every way of splitting the incoming bytes into fetched blocks, including one-byte blocks, short blocks and blocks of varying size.",
["schedules","inputs","fault_sequences"],"all messages, all partitions of the byte sequence into fetches, all alignments",
"Block boundaries fall at arbitrary bit phases inside arbitrary items; tests never enable streaming and never vary fetch sizes.",
[ENC,UP,AC],[("stream position","next bit to be read inside the current block","asn1crt/asn1crt.h BitStream.currentByte/currentBit"),("block length","valid bytes in the current block","asn1crt/asn1crt.h BitStream.count")],
[("fetch on empty block",ENC+" bitstream_fetch_data_if_required"),("item decoders",ENC+" BitStream_Read*/Decode*")],["decode verdict, value and position"])
p("S03","A message cut short is never accepted",
"If the bytes of a message stop early, at any byte, because the sender crashed, a write was torn, a file was truncated or a connection closed, decoding the remainder reports failure. Decoding a log of concatenated messages whose tail was cut therefore recovers exactly the messages that were written completely, unchanged and in order.",
["crash_points","inputs","histories"],"all messages and message logs, all byte positions at which the data ends, whole-buffer and streamed decoding",
"A crash can cut at any of thousands of byte positions inside any item; tests only decode complete messages.",
[ENC,UP,AC],[("end of data","number of valid bytes","asn1crt/asn1crt.h BitStream.count")],[("bounds checks before and after reads",ENC+" BitStream_Read*"),("verdict propagation","BackendAst/DAstUPer.fs, BackendAst/Acn/*, StgC/*.stg")],["decode verdict of each message","values of recovered messages"])
p("C01","Decoding arbitrary bytes is safe, bounded and yields only valid values",
"Given any byte sequence, a generated C decoder returns within a number of steps bounded by the sizes of the input and the type, without aborting and without reading outside the received bytes or writing outside the destination. It reports success only for a value that satisfies all constraints of its ASN.1 type; otherwise it reports failure with a non-zero error code.",
["fault_sequences","inputs"],"all byte strings a corrupting, truncating, splicing or hostile channel can deliver, for uPER and ACN, whole-buffer and streamed",
"Tests feed decoders only their own encoders' output; the guarantee is about everything else.",
[ENC,UP,AC,"BackendAst/DAstUPer.fs","BackendAst/DAstACN.fs","StgC/uper_c.stg","StgC/acn_c.stg"],
[("remaining input","bytes not yet consumed","asn1crt/asn1crt.h BitStream"),("destination","caller's structure","generated type")],
[("bounds checks",ENC),("range checks on decoded lengths and indices",ENC+" / "+AC),("constraint check after decoding","StgC/uper_c.stg, StgC/acn_c.stg")],["verdict, error code, memory touched, steps executed"])
p("C02","Encoders stay inside the advertised maximum size",
"Encoding any valid value needs no more bytes than the generated maximum-size constant of its type and encoding, and never touches memory outside a buffer of exactly that size.",
["inputs"],"all valid values of all types, uPER and ACN, starting at any allowed alignment",
"Worst-case sizes are reached only by particular values and alignments; tests use a handful of fixed values.",
["FrontEndAst/uPER.fs","FrontEndAst/AcnEncodingClasses.fs",ENC,UP,AC],[("maximum size constant","bytes sufficient for any value","generated *_REQUIRED_BYTES_FOR_*ENCODING")],
[("size computation","FrontEndAst/uPER.fs, FrontEndAst/AcnEncodingClasses.fs"),("bit writers",ENC)],["final stream position, guard bytes around the buffer"])
p("C03","Nodes built with any options exchange values losslessly on one wire format",
"For every valid value, the bytes produced are those the uPER rules or the ACN specification prescribe, and every decoder built from the same specification reconstructs an equal value and consumes exactly those bits. The word size, slim types, streaming, deferred patching and efficient-enumeration options of the C back end do not change the bytes on the wire, and every such node can read what any other wrote.",
["configurations","inputs","histories"],"all valid values, all pairs of sender and receiver configurations, all sequences of messages on a reliable link (or retransmitted over a lossy one)",
"Round-trip tests compare an implementation only with itself and only in one configuration.",
[ENC,UP,AC,"BackendAst/DAstUPer.fs","BackendAst/DAstACN.fs","StgC/LangGeneric_c.fs"],[("message bits","bits on the wire","BitStream contents")],[("primitive codecs",ENC+" / "+UP+" / "+AC),("code generation","BackendAst, StgC")],["bytes sent, value received, bits consumed"])
p("C04","Invalid values are refused by the sender",
"With constraint checking on, encoding succeeds exactly when the value satisfies every constraint of its ASN.1 type, whatever corruption the in-memory value has suffered: a violating value (number, size, alphabet, enumerant, selector) is refused with a non-zero error code and produces no bytes, and a valid value is never refused.",
["inputs","fault_sequences"],"all in-memory values reachable by corrupting fields of a valid value",
"Tests check constraint functions on a few valid values only.",
["BackendAst/DastValidate2.fs","StgC/isvalid_c.stg","StgC/uper_c.stg","StgC/acn_c.stg"],[("value under test","in-memory value","generated type")],[("constraint functions","BackendAst/DastValidate2.fs"),("check before encode","StgC/uper_c.stg, StgC/acn_c.stg")],["encode verdict, error code, stream position"])
p("C05","Decoding has no memory of the past",
"The result of decoding depends only on the received bytes: for the same bytes, the verdict, the bits consumed and every field of an accepted value are the same whatever the destination, the unused part of the buffer and the stack held before, and whatever was decoded or failed to decode earlier.",
["histories","inputs","fault_sequences"],"all byte strings, all prior contents of destination and stack, all histories of earlier successful and failed decodes",
"A dependence on stale memory shows only for particular leftovers; tests start from zeroed memory.",
[ENC,UP,AC,XE,"BackendAst/DAstUPer.fs","BackendAst/DAstACN.fs","StgC/uper_c.stg","StgC/acn_c.stg"],[("destination","caller's structure before decoding","generated type")],[("item decoders",ENC)],["verdict and canonical dump of the decoded value"])
p("C06","Concurrent codec calls on separate streams do not interfere",
"Any number of tasks encoding and decoding separate values on separate streams get the results they would get running alone, under every interleaving of their execution.",
["schedules","histories"],"all interleavings of tasks at every branch point, over uPER, ACN with deferred patching and XER codecs",
"Interference needs a pre-emption at a particular point inside a codec; the tests are single threaded.",
[ENC,UP,AC,XE,"BackendAst/DAstACNDeferred.fs"],[("hidden shared state","static variables in the runtime and generated code",XE)],[("absence of shared mutable state",ENC)],["bytes and values produced by each task"])
p("D01","Deferred determinants are patched correctly and only in place",
"With deferred patching, the encoding of every value equals the encoding without it, each reserved determinant ends up holding the actual size, presence or choice of the data it governs, and patching changes no bit outside the reserved field. When several fields share one determinant and their values disagree, encoding fails with the consistency error instead of emitting a message.",
["inputs","histories"],"all values of types with shared, nested and forwarded determinants; all orders of reserving and patching at all bit positions and widths",
"Patching at unaligned positions amid already written data is sensitive to neighbouring bits; the few committed examples are byte aligned.",
[ACH,AC,"BackendAst/DAstACNDeferred.fs"],[("reserved field","saved position, whether set, value",ACH+" AcnInsertedFieldRef")],[("reserve and patch",ACH+" Acn_InitDet_*/Acn_PatchDet_*")],["final bytes, verdict and error code"])
p("X01","Loading an XML message file is all or nothing under I/O faults",
"Loading an XML file for XER decoding succeeds only when the complete file content was read and fits the given buffer, yielding exactly that content apart from ignorable whitespace; if opening or reading fails at any point, or the file is too large, it reports failure. The outcome of one load never depends on an earlier load that failed.",
["fault_sequences","histories"],"all file contents and all positions and kinds of open/read failure, over sequences of loads",
"Read errors at a chosen byte cannot be provoked with ordinary files.",
[XE],[("load buffer","bytes loaded so far",XE+" LoadXmlFile")],[("file load",XE+" LoadXmlFile")],["verdict and loaded bytes, open file handles"])
p("X02","XER messages survive the trip and damaged ones are rejected safely",
"Encoding any valid value to XER and decoding it, with any amount of inter-element white space, comments between elements or a leading XML header, reproduces an equal value. On damaged text the decoder terminates without touching memory outside its input and destination; every strict prefix of a message and every text whose elements do not match the type is rejected, and success is reported only for a value that fits the type: sizes within the declared maximum, known enumeration names and alternatives, integers within the range of their representation and constraint.",
["inputs","fault_sequences"],"all valid values; all corruptions and truncations of XER text",
"Tests contain no XER at all.",
[XE,"BackendAst/DAstXer.fs","StgC/xer_c.stg"],[("text position","current byte","asn1crt/asn1crt.h ByteStream")],[("tokenizer",XE+" NT/LA")],["verdict, value, memory touched"])
p("A01","C and Ada nodes interoperate and agree on damaged messages",
"A message produced by the C code is decoded by the Ada code generated from the same specification into an equal value, and re-encoded to identical bytes, and vice versa. On damaged messages the Ada decoder raises no exception, terminates, and accepts only values satisfying all constraints; a damaged message that both accept is read as the same value from the same bits.",
["configurations","inputs","fault_sequences"],"all valid values and all corruptions of their encodings, both directions, uPER and ACN",
"The two runtimes are written independently; tests run only C and only against itself.",
["ADA_RTL2/src/adaasn1rtl-encoding.adb","ADA_RTL2/src/adaasn1rtl-encoding-uper.adb","ADA_RTL2/src/adaasn1rtl-encoding-acn.adb","StgAda/uper_a.stg","StgAda/acn_a.stg"],[("stream","buffer and bit position","ADA_RTL2/src/adaasn1rtl-encoding.ads Bitstream")],[("Ada codecs","ADA_RTL2/src/*.adb")],["relayed bytes and verdicts"])
p("G01","Generated output is a function of the inputs and options only",
"For the same specification files and options the compiler writes byte-identical files whatever the wall clock, process identifiers, hash seeds, working directory, locale, directory contents or the order in which scheduling happens.",
["configurations","schedules"],"all environments in which the compiler runs on the same inputs",
"A dependence on time, hashing or locale shows only when the environment changes between two runs.",
["asn1scc/Program.fs","asn1scc/GenerateRTL.fs","BackendAst/GenerateFiles.fs","CommonTypes"],[("output tree","names and contents of generated files","output directory")],[("file generation","BackendAst/GenerateFiles.fs, asn1scc/GenerateRTL.fs")],["output files and exit status"])
p("G02","The compiler reports success only when everything was written",
"If the compiler exits with status zero, every output file it produces is complete. If any input cannot be read or any output cannot be created or fully written (disk full, I/O error, permission) it exits with a non-zero status and a message, and never alters its input files; rerunning after the fault has cleared produces the same output as an undisturbed run.",
["fault_sequences","crash_points"],"all points at which a file operation fails or the process is killed, then a clean rerun",
"Needs an I/O error at a chosen operation.",
["asn1scc/Program.fs","asn1scc/GenerateRTL.fs","BackendAst/GenerateFiles.fs"],[("output tree","files on disk","output directory")],[("exit status","asn1scc/Program.fs main")],["exit status, output files"])
p("W01","The daemon stops only when abandoned and answers every request",
"With the watchdog enabled the server stops exactly when no keep-alive request was processed for the configured time, never earlier. While it runs every request gets exactly one completed response, a failing request is answered with an error and does not disturb other requests or the server, and stopping ends the serve loop cleanly.",
["schedules","histories","fault_sequences"],"all interleavings of requests, timer expiry, stop and client failures",
"Timer races and failing clients cannot be scheduled by ordinary tests, and there are none.",
["Daemon/HttpServer.fs","Daemon/Watchdog.fs","Daemon/Http.fs","Daemon/Program.fs"],[("stop flag","whether the serve loop should end","Daemon/HttpServer.fs stopRequested"),("watchdog timer","time left before stop","Daemon/Watchdog.fs timer")],[("serve loop","Daemon/HttpServer.fs Serve"),("watchdog","Daemon/Watchdog.fs")],["responses, stop time, loop exit"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
