#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","No input makes the dumper panic or hang",
 "For every byte string, in every option combination and through every way of supplying it, a dump ends by returning a packet list or an error. It never panics, never loops forever, and the command line never ends through its panic handler.",
 ["inputs","configurations"],"all byte strings (binary, armored, truncated, corrupted at any offset) x all option subsets",
 "The tests feed about a hundred well-formed samples; truncations inside nested length-prefixed fields (secret keys, key blocks, user attributes, S2K specifiers) are not sampled.",
 ["parse/parse.go","parse/parser.go","parse/tags/seckey.go","parse/pubkey/parse_secplain.go","parse/reader/reader.go","parse/tags/sub01.go"],
 [("bounds-checked cursor","parse/reader/reader.go ReadBytes"),("error propagation in every body parser","parse/tags/*.go, parse/pubkey/*.go, parse/s2k/s2k.go")],
 ["return of the parser's parse call","process exit code and stderr"])
p("C02","Every packet of the stream is listed once, in order, with tag and length",
 "For a complete packet stream the dump lists exactly one top-level entry per packet, in stream order, each naming the packet's tag and its body length. This holds for every header encoding (old format with one-, two-, four-octet and indeterminate length; new format with one-, two-, five-octet and partial lengths) and for every tag number, known or not.",
 ["inputs"],"all sequences of packets x all legal header encodings of each x all tag numbers 0..63",
 "Tests parse single packets with the one or two header forms gpg emits; mixes of encodings, partial-length chains and unassigned tags are not enumerated.",
 ["parse/parse.go","parse/tags/packets.go","parse/tags/tags.go","parse/values/tagid.go","parse/result/result.go"],
 [("packet loop","parse/parse.go Parse, parse/tags/packets.go Next/Parse"),("tag dispatch","parse/tags/tags.go NewTag")],
 ["returned packet list (names, notes, order)"])
p("C03","A dump succeeds exactly when every packet is complete",
 "If the input ends inside a packet header or body, or a field, subpacket or integer inside a packet body runs past the end of its enclosing body, the dump reports an error, and the packets listed are exactly the ones fully parsed before the damage. When every packet and every field is complete the dump reports no error.",
 ["inputs","fault_sequences"],"every truncation point of every packet stream, every enlarged internal length field",
 "Tests check a few success cases and almost no error path; a swallowed error in one branch shows the truncated packet as complete and no test notices.",
 ["parse/parse.go","parse/tags/packets.go","parse/tags/tag02.go","parse/tags/tag20.go","parse/tags/sub38.go","parse/values/mpi.go","parse/values/ecc.go","parse/reader/reader.go"],
 [("error return of each field read","parse/tags/*.go"),("end-of-stream versus unexpected end distinction","parse/parse.go Parse, parse/tags/packets.go")],
 ["error/no error of the parse call and number of packets returned","exit code"])
p("C04","Signature packets are decoded field by field",
 "For every version 3, 4 or 5 signature packet the dump shows version, signature type, creation time (v3), issuer key ID (v3), public-key and hash algorithm, hashed and unhashed subpacket areas with their byte counts, the two leading hash octets and one entry per signature integer of the algorithm with its bit length, each equal to the octets of the packet, in packet order. Octets after the last known field are reported as unknown data with their exact count, and other versions report the whole rest that way; a body too short for its fields is an error, never shown as if complete.",
 ["inputs"],"all signature packet bodies: versions x types x algorithms x subpacket areas x integer sizes",
 "Tests hold about ten fixed signatures; algorithm/version combinations, empty areas and trailing data are not covered.",
 ["parse/tags/tag02.go","parse/pubkey/parse_sig.go","parse/values/mpi.go","parse/values/sigid.go"],
 [("v3/v4 layout walk","parse/tags/tag02.go parseV3/parseV4"),("integers per algorithm","parse/pubkey/parse_sig.go")],
 ["entries under the signature packet"])
p("C05","Every subpacket is shown once, in order, with its decoded contents",
 "Each subpacket of a signature's hashed or unhashed area and of a user attribute is shown exactly once, in order, under its area, with its type name and number, its critical mark, and the values its octets encode (times, periods, flags, preference lists, key IDs, fingerprints, notations, texts, embedded signatures, key blocks, image data size). Unknown or reserved types are shown with their length, and a bit set in an unassigned flag position is shown as an unknown flag of the octet it occurs in; a subpacket too short for its fields is an error, never shown as if complete.",
 ["inputs"],"all subpacket areas: every type 0..127 x critical bit x every length encoding x contents x nesting",
 "Tests contain only the subpackets gpg happened to emit; flag octets beyond the second, notation flags, revocation reasons, nested signatures and key blocks are unsampled.",
 ["parse/tags/subParser.go","parse/tags/subs.go","parse/tags/sub01.go","parse/tags/sub05.go","parse/tags/sub20.go","parse/tags/sub27.go","parse/tags/sub32.go","parse/tags/sub38.go"],
 [("subpacket split and dispatch","parse/tags/subParser.go, parse/tags/subs.go NewSubs"),("per-type decoder","parse/tags/sub*.go")],
 ["entries under the subpacket area"])
p("C06","Public key and subkey packets are decoded field by field",
 "For every version 3, 4 or 5 public-key or public-subkey packet the dump shows version, creation time, validity period (v3), algorithm and, in order, every component of the algorithm's key material: integers with their declared bit length, curve name or Unknown with the curve octets, the kind of EC point encoding, and key-derivation parameters. Octets not covered by the layout are reported as unknown data with their exact count; a body too short for its fields is an error, never shown as if complete.",
 ["inputs"],"all public-key bodies: versions x algorithm ids 0..255 x curve ids x integer sizes x KDF parameters",
 "Tests hold a few RSA/DSA/ECC keys; v5, unknown algorithms, unknown curves and odd KDF blocks are not sampled.",
 ["parse/tags/pubkey.go","parse/tags/tag06.go","parse/tags/tag14.go","parse/pubkey/parse_pub.go","parse/values/ecc.go","parse/values/mpi.go"],
 [("layout walk","parse/tags/pubkey.go"),("material per algorithm","parse/pubkey/parse_pub.go")],
 ["entries under the key packet"])
p("C07","Secret key packets: protection mode and key material are shown correctly",
 "For every secret-key or secret-subkey packet the public part is shown as for the public packet, followed by how the secret part is protected: for usage 0 every plain integer and the checksum; for usage 253/254/255 the cipher, AEAD mode (253), string-to-key specifier with hash, salt and exact iteration count, and IV; for any other usage value that value as the cipher and its IV; and the size of the encrypted material. Fields are taken from the octets that carry them, including the length-prefixed fields of version 5 keys; a body too short for its fields is an error, never shown as if complete.",
 ["inputs"],"all secret-key bodies: versions 3/4/5 x usage 0..255 x ciphers x S2K types and all 256 counts x GNU extensions x algorithms",
 "Tests contain a handful of gpg-exported secret keys (usage 0 and 254); legacy usages, AEAD, v5 and card stubs with serials are barely covered.",
 ["parse/tags/tag05.go","parse/tags/tag07.go","parse/tags/seckey.go","parse/s2k/s2k.go","parse/values/s2kid.go","parse/pubkey/parse_secplain.go","parse/pubkey/parse_secenc.go"],
 [("usage dispatch","parse/tags/seckey.go Parse"),("S2K decoder","parse/s2k/s2k.go Parse")],
 ["entries under Public-Key and Secret-Key"])
p("C08","Session-key, one-pass and encrypted-data packets are decoded field by field",
 "Public-key and symmetric-key encrypted session key packets, one-pass signature packets, symmetrically encrypted, integrity-protected, AEAD-encrypted and modification-detection packets show every header field (version, key ID with all 16 hex digits, algorithms, string-to-key specifier, nested flag, chunk size, IV, encrypted integers) equal to the packet's octets, and the exact size of the opaque rest. A body too short for its fields is an error, never shown as if complete.",
 ["inputs"],"all bodies of packets 1, 3, 4, 9, 18, 19 and 20",
 "Tests hold one or two samples per packet type; key IDs with leading zeros, extreme chunk sizes and other algorithms are unsampled.",
 ["parse/tags/tag01.go","parse/tags/tag03.go","parse/tags/tag04.go","parse/tags/tag09.go","parse/tags/tag18.go","parse/tags/tag19.go","parse/tags/tag20.go","parse/pubkey/parse_ses.go","parse/values/keyid.go"],
 [("layout walk per packet","parse/tags/tag01.go, tag03.go, tag04.go, tag20.go"),("session key per algorithm","parse/pubkey/parse_ses.go")],
 ["entries under those packets"])
p("C09","Encrypted data names the session-key kind that precedes it, once",
 "The remark on an encrypted data packet says public-key or symmetric-key according to the last encrypted session key packet since the previous encrypted data packet, and says neither when there was none. An encrypted data packet of either kind consumes that information; no other packet in between changes it.",
 ["histories","inputs"],"all sequences of packets, including session keys of both kinds in any order, several messages in one stream, and packets inside compressed data",
 "It is a property of packet histories; the tests each parse one fixed message.",
 ["parse/context/symalgmode.go","parse/tags/tag01.go","parse/tags/tag03.go","parse/tags/tag09.go","parse/tags/tag18.go"],
 [("set/reset of the session-key mode","parse/context/symalgmode.go, parse/tags/tag01.go, tag03.go, tag09.go, tag18.go")],
 ["value and note of the encrypted data entry"],
 [("mode","which kind of session key packet was seen last","parse/context/context.go Context.SymAlgMode")])
p("C10","Expiration dates are relative to their own signature and key",
 "When an expiration entry of a signature shows a calendar date, that date is the creation time given earlier in the same signature plus the period, and when a key expiration entry shows one it is the creation time of the nearest preceding key plus the period. A time belonging to another signature, to an embedded signature or to an earlier key is never used, and the sum never wraps around.",
 ["histories","inputs"],"all sequences of key and signature packets with creation/expiration subpackets in any order and any 32-bit values",
 "It depends on state carried across packets and on 32-bit overflow; tests preset one key time and parse one signature.",
 ["parse/tags/sub02.go","parse/tags/sub03.go","parse/tags/sub09.go","parse/tags/pubkey.go","parse/tags/tag02.go","parse/values/expire.go"],
 [("creation time registers","parse/context/context.go"),("date arithmetic","parse/values/expire.go ToItem")],
 ["note of the expiration entries"],
 [("sig time","creation time seen in the current signature","parse/context/context.go Context.SigCreationTime"),("key time","creation time of the last key packet","parse/context/context.go Context.KeyCreationTime")])
p("C11","Compressed data packets are expanded to exactly their inner packets",
 "A compressed data packet using any of the four defined algorithms (uncompressed, ZIP, ZLIB, BZip2) is listed with its algorithm and compressed size, followed by the entries of exactly the packets obtained by decompressing it, in order. Data that cannot be decompressed or whose inner stream is damaged is an error, never a silently shorter list; an unknown algorithm is reported without expansion.",
 ["inputs"],"all inner packet streams x compression algorithm x header encodings x corruption of the compressed data",
 "Tests use one compressed sample; multi-packet contents, each algorithm's corrupt data and inner truncation are not covered.",
 ["parse/tags/Tag08.go","parse/tags/packets.go","parse/values/compid.go"],
 [("decompression","parse/tags/Tag08.go"),("inner packet loop","parse/tags/packets.go Parse")],
 ["entries under the compressed packet"])
p("C12","Options only control dumps and time zone; they never change the decoding",
 "For one input, any two option sets list the same entries with the same names, values and notes, except that times are shown in UTC exactly when the UTC option is set; an optional octet dump appears exactly when the option for that kind of data (integers, literal data, marker data, private packets, attested certifications) or the debug option is set, and shows exactly the octets of that field. Debug implies every dump option, armor-only mode only restricts which inputs are accepted, and setting an option from its name acts like setting it directly.",
 ["inputs","configurations"],"all inputs x all 2^8 option subsets x local time zones",
 "Tests use the all-off and the all-on configuration; per-option gating of each entry kind is not enumerated.",
 ["parse/context/context.go","parse/context/options.go","parse/tags/*.go","parse/pubkey/*.go","parse/values/*.go"],
 [("option predicates","parse/context/context.go"),("dump flags at each entry","parse/values/*.go ToItem")],
 ["dump, value and note of every entry"])
p("C13","Text and JSON outputs render the same complete tree",
 "The text form prints, for each entry in tree order, one line with its name, then its value and its note when present, indented by its depth, followed by its dump one level deeper; the JSON form contains exactly the same entries with the same name, value, note and dump, in the same nesting, and is valid JSON. The indent setting changes only the indentation (text) or the layout (JSON) and never the content, and an empty result renders as empty text and an empty JSON object.",
 ["inputs","configurations"],"all result trees x output format x indent sizes",
 "Tests compare a few fixed outputs; deep trees, entries lacking each field and text needing JSON escapes are not covered.",
 ["parse/result/result.go","facade/facade.go"],
 [("tree printer","parse/result/result.go toString"),("JSON marshalling","parse/result/result.go JSON"),("format selection","facade/facade.go marshalPacketInfo")],
 ["bytes written to standard output"])
p("C14","Armored and binary forms of the same packets dump identically",
 "Wrapping a packet stream in ASCII armor, with any well-formed header lines, any line lengths the format allows (up to 76 characters), line endings, checksum or none, and any surrounding text including a cleartext-signed message, yields the same dump as the binary stream, with and without armor-only mode. In armor-only mode input without a complete armor block is an error, and a wrong checksum or damaged armor body is an error in either mode.",
 ["inputs","configurations"],"all packet streams x armor layouts x surrounding text x armor option",
 "Tests hold two armored samples; surrounding text, missing END lines, cleartext signatures and bad checksums are not enumerated.",
 ["armtext/armtext.go","parse/parser.go"],
 [("armor block extraction","armtext/armtext.go Get"),("mode selection and fallback","parse/parser.go New")],
 ["parse result and error"],
 [("scanner phase","before / inside / after the armor block","armtext/armtext.go Get")])
p("C15","The dump depends only on the input bytes, not on how they arrive",
 "The same bytes give the same dump whether they come from memory, a file, standard input or the network, and in whatever chunk sizes the source delivers them. If the source fails with a read error at any point, the dump reports an error and never presents the part read so far as a complete dump.",
 ["inputs","fault_sequences","schedules"],"all inputs x all chunkings x every read-error position",
 "Tests only use in-memory readers that deliver everything at once; short reads, data-with-EOF and read errors never occur in them.",
 ["parse/parser.go","armtext/armtext.go","facade/facade.go"],
 [("input buffering and armor probe","parse/parser.go New"),("line scanner","armtext/armtext.go")],
 ["parse result and error"])
p("C16","Text taken from the input cannot inject control characters into the output",
 "Every value or note that reproduces text or characters from the input (user IDs, file names, notation data, URIs, regular expressions, revocation reasons, the literal format character) contains no control character: each is replaced by a visible code-point notation and everything else is reproduced exactly. Text that is not valid UTF-8 is shown as a hexadecimal dump instead.",
 ["inputs"],"all byte strings in every text-bearing field",
 "Tests use plain ASCII texts; C1 controls, DEL, multi-byte runes and invalid UTF-8 in each field are unsampled.",
 ["parse/values/literal.go","parse/tags/tag11.go","parse/tags/tag13.go","parse/tags/sub06.go","parse/tags/sub20.go","parse/tags/sub24.go","parse/tags/sub26.go","parse/tags/sub28.go","parse/tags/sub29.go"],
 [("control character escaping","parse/values/literal.go Text.ToItem, LiteralFormat")],
 ["value of text entries","bytes on standard output"])
p("C17","Command-line runs: exit status, streams and independence of earlier runs",
 "A command succeeds (exit 0) exactly when the input was read and dumped (or raw data, version or completion script was written), and then standard output holds exactly that rendering; otherwise, unless the debug option was given, it fails with a non-zero exit, writes a message to standard error and nothing of a dump to standard output. The outcome depends only on the arguments and the input of this run, never on earlier runs in the same process, and conflicting or missing arguments are rejected.",
 ["inputs","configurations","histories"],"all argument vectors x inputs x sequences of runs in one process",
 "Tests call the command a few times with fixed arguments; run sequences and most failing combinations are not tried.",
 ["facade/facade.go","facade/debug.go","facade/hkp.go","facade/github.go","facade/fetch.go","facade/version.go","facade/completion.go"],
 [("error to exit code mapping","facade/facade.go Execute, facade/debug.go"),("flag variables","facade/facade.go")],
 ["exit code, standard output and standard error"],
 [("flag values","option values of the run","facade/facade.go package variables")])
p("C18","GitHub key lookup finds the key wherever it is listed, or reports its absence",
 "With a key ID, listing pages are requested in order starting from the first until the key is found or a page that is not full is reached, each page at most once, for the given user; the armored text of the first listed key whose ID equals the given one (ignoring case and a leading 0x) is returned. If no listed key matches, or the match has no text, a no-such-key error results, and any failed or malformed response is an error; without a key ID the user's full key file is requested and returned unchanged.",
 ["inputs","fault_sequences","histories"],"all users, key IDs, listings of any number of pages, faults on any page",
 "The tests talk to the real network or a fixed one-page answer; multi-page listings, full last pages and faults on later pages are not covered.",
 ["github/github.go","github/structs.go"],
 [("page loop","github/github.go GetKey"),("request construction","github/github.go makeURL, makeURLAPI")],
 ["HTTP requests issued, bytes or error returned"],
 [("page counter","next page to request","github/github.go GetKey")])
p("C19","Key server lookup issues exactly the right request and surfaces failures",
 "A key server lookup issues exactly one GET request to the configured host, port and scheme (plain or secure), whose lookup operation is get and whose search parameter decodes to exactly the given user ID or key ID. The response body is returned unchanged, and any connection failure or HTTP error status is reported as an error.",
 ["inputs","configurations","fault_sequences"],"all hosts, ports, protocols and search strings x all responses and failures",
 "Tests check the URL of a few servers; search strings needing escaping and failing servers are not covered.",
 ["hkp/hkp.go","facade/hkp.go"],
 [("request construction","hkp/hkp.go URL, Fetch"),("option handling","facade/hkp.go")],
 ["HTTP request issued, body or error returned"])
p("C20","The byte cursor never leaves its buffer and every read is consecutive",
 "For every sequence of operations on a byte cursor (reads of any size, seeks of any offset and origin, reads at an offset, read-to-end, copy-out, dumps), the position stays within the buffer, a successful read returns exactly the octets at the position and advances by their number, a read beyond the end fails with an end-of-data error without moving or returning data, an invalid seek fails without moving, and a read at an offset acts as a seek to that offset followed by a read. The remaining length always equals size minus position.",
 ["histories","inputs"],"all operation sequences over all buffers and arguments, including negative and huge ones",
 "Tests run single operations on one four-byte buffer; sequences such as reading to the end and then seeking are not explored.",
 ["parse/reader/reader.go"],
 [("bounds checks","parse/reader/reader.go ReadBytes, Seek, Read2EOF")],
 ["return values, remaining length after each call"],
 [("offset","cursor position","parse/reader/reader.go Reader.offset")])
p("C21","Dumps are deterministic and independent of each other",
 "Dumping the same bytes with the same options always gives the same result, whatever was dumped before, including when one option set is reused for many dumps one after another, interleaved or at the same time. The caller's option set is the same after a dump as before, and creating a dumper with no option set behaves as one with no options.",
 ["schedules","histories","inputs"],"all sequences and interleavings of dumps sharing option sets",
 "Every test builds a fresh option set and parses once; reuse and concurrency never occur.",
 ["parse/parser.go","parse/context/context.go","parse/values/ecc.go"],
 [("per-dump state","parse/parser.go New, parse/context/context.go")],
 ["packet lists of successive and concurrent dumps"],
 [("shared context","mode and creation times carried by the option set","parse/context/context.go")])
p("C22","Numeric identifiers are named consistently for all values",
 "For every octet value, the packet tag, signature type, subpacket type, public-key, symmetric, hash, compression, AEAD and string-to-key identifiers and packet versions are shown with the number itself and the name the OpenPGP specification gives it, with values 100 to 110 shown as private/experimental where the specification says so, and with Unknown (or Reserved) otherwise. The same identifier is shown identically in whatever packet it occurs (signatures and user attributes number their subpacket types separately), and dates are shown as the correct calendar date for all 2^32 timestamps.",
 ["inputs"],"all 256 values of each identifier in each place it occurs, all 32-bit times",
 "Tests check a few entries of each table; wrong entries, off-by-one private ranges or a shifted table elsewhere go unseen.",
 ["parse/values/tagid.go","parse/values/sigid.go","parse/values/subpacketid.go","parse/values/pubid.go","parse/values/symid.go","parse/values/hashid.go","parse/values/compid.go","parse/values/aeadid.go","parse/values/s2kid.go","parse/values/version.go","parse/values/datetime.go"],
 [("name tables","parse/values/*.go")],
 ["values of identifier entries"])
p("C23","Literal, user ID, attribute, marker, trust and private packets are decoded",
 "Literal data packets show format, file name, file time (null when zero) and the exact number of data octets; user ID packets show their text; marker, trust, private and unknown packets show their exact size; user attribute packets show each attribute subpacket with its size. Dumped data equals the packet's octets, and a body too short for its fields is an error.",
 ["inputs"],"all bodies of packets 10, 11, 12, 13, 17, 60..63 and unassigned tags",
 "Tests hold one sample per packet; empty names, zero times, long names, and user attributes and trust packets at all are not covered.",
 ["parse/tags/tag10.go","parse/tags/tag11.go","parse/tags/tag12.go","parse/tags/tag13.go","parse/tags/tag17.go","parse/tags/tagPrivate.go","parse/tags/tagUnknown.go","parse/values/literal.go","parse/values/datetime.go"],
 [("layout walk","parse/tags/tag11.go, tag17.go"),("raw data entry","parse/values/literal.go RawData")],
 ["entries under those packets"])
p("C24","Network commands: raw mode passes data through, dump mode equals a local dump",
 "The URL command requests exactly the given URL. For the key server, GitHub and URL commands, raw mode writes the fetched data to standard output byte for byte, and without it the output equals dumping that data locally with the same options (armor-only for the key server and GitHub). A failed request, an error status or a broken body gives a failing exit and no dump.",
 ["inputs","configurations","fault_sequences"],"all responses x command x options x faults in connection, status or body",
 "No test exercises these commands without the real network.",
 ["facade/hkp.go","facade/github.go","facade/fetch.go"],
 [("raw switch and parse path","facade/hkp.go, facade/github.go, facade/fetch.go")],
 ["HTTP request, standard output, exit code"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
