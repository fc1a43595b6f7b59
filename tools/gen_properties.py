#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))

LZ = "src/lzhuf.rs"; FBB = "src/fbb.rs"; VARA = "src/modem/vara.rs"; KX3 = "src/rig/elecraft/kx3.rs"; TY = "src/types.rs"; MAIN = "src/main.rs"
HOOK = "private items; reached through the guarded verif module of the file (cfg plusendi_verif)"

prop("C01", "CRC-16 is the XMODEM checksum for every byte sequence",
 "The 16-bit checksum computed over a byte sequence equals CRC-16/XMODEM (polynomial x^16+x^12+x^5+1, initial value 0, most significant bit first, no final inversion) for every sequence, fed one byte at a time from any running value. Feeding an empty sequence yields 0.",
 ["inputs", "histories"], "every running checksum value and every next byte; every byte sequence",
 "One test checks one sample message; a wrong table entry, shift or masking that the sample does not touch is invisible to it.",
 ["src/crc16.rs"], [("Crc16::update table step", "src/crc16.rs Crc16::update"), ("CRC_TABLE", "src/crc16.rs CRC_TABLE")],
 ["value returned by finish()"], HOOK)

prop("C02", "Compression round-trips every message",
 "Decompressing the compressed form of any message, with the message's length as the announced size, succeeds and yields exactly the original message. This holds for the empty message, for messages shorter than a match window, for messages long enough to wrap the history window, and for any mixture of repeated and fresh text.",
 ["inputs"], "every byte string as message, of any length and repetition structure",
 "Tests round-trip three tiny inputs and one 291-byte sample; distances of 256 or more, window wrap-around, the empty message and long messages are never exercised.",
 [LZ], [("Encoder::encode greedy matcher and ring buffer", LZ), ("Decoder::decode ring-buffer copy", LZ), ("bit packing", LZ + " Bitbuffer/Biterator")],
 ["bytes produced by the encoder", "bytes produced by the decoder"], HOOK,
 [("text_buffer/r", "sliding history window shared in shape by both directions", LZ + " LzHufState"), ("lson/rson/dad", "match search tree", LZ + " Encoder")])

prop("C03", "Decompression of arbitrary bytes is total and never overruns",
 "For every byte stream and every announced size, decompression terminates without panicking, writes exactly within the output it was given, and either fills the output completely or reports a premature end of data. When it succeeds, announcing a smaller size for the same stream yields a prefix of the same output, and cutting the stream short yields the same output or a premature-end error, never different data.",
 ["inputs"], "every compressed byte stream (valid, truncated or hostile) and every announced size",
 "Tests decode four valid streams only; nothing decodes a truncated or hostile stream, or one whose last match reaches past the announced size.",
 [LZ, FBB], [("Decoder::decode bounds", LZ), ("Biterator end-of-input reporting", LZ), ("CompressedMessage::decompress", FBB)],
 ["result and buffer of decode/decompress"], HOOK)

prop("C04", "The adaptive code stays decodable after every symbol history",
 "After any history of coded symbols, including histories long enough to trigger any number of frequency-table rebuilds, every symbol has a code, the decoder recovers exactly the symbol that was encoded however long its code is, and both sides end in the same coding state. No symbol history makes the coder panic, loop forever or lose bits.",
 ["histories", "inputs"], "every reachable (and every invariant-satisfying) code tree and every next symbol",
 "Tests code at most a few hundred symbols; a frequency-table rebuild needs more than 32,000 symbols and codes longer than 15 bits need adversarial frequency profiles.",
 [LZ], [("LzHufState::update sibling swap", LZ), ("LzHufState::reconstruct", LZ), ("Encoder::encode_char / Decoder::decode_char", LZ)],
 ["bits emitted for a symbol", "symbol decoded from bits", "coding state after the symbol"], HOOK,
 [("frequency_table/parents/children", "adaptive Huffman tree with the sibling property", LZ + " LzHufState")])

prop("C05", "Match distances and raw bits survive the bit stream",
 "Every match distance in the history window written to the bit stream is read back as the same distance, consuming exactly the bits that were written, from any bit alignment. Bits and bytes are read back most significant first in the order they were written, and a reader reports end of data rather than inventing a byte when fewer bits remain.",
 ["inputs", "histories"], "every distance 0..2047 (and every 12-bit value), every bit alignment, every sequence of written codes",
 "Tests read two literal byte strings bit by bit and encode only short distances, so neither the upper half of the code tables nor unaligned access is covered.",
 [LZ], [("encode_position / p_len,p_code", LZ), ("decode_position / DECODE_CODE,DECODE_LEN", LZ), ("Bitbuffer::put_code", LZ), ("Biterator::get_bit/get_byte", LZ)],
 ["decoded distance", "bits remaining"], HOOK)

prop("C06", "A message block is accepted only with intact checksum and CRC",
 "A received B2 message block is accepted if and only if its trailing 8-bit checksum makes the sum of CRC bytes, size bytes and all content bytes zero modulo 256 and its CRC-16 matches the size bytes and content; in particular any single corrupted byte in CRC, size, content or checksum is rejected. When it is accepted, the announced CRC, the uncompressed size and the content bytes it reports are exactly those on the wire.",
 ["inputs"], "every block content, CRC, size and checksum value; every single-byte corruption",
 "Tests parse two intact samples; no test presents a corrupted block, so dropping either comparison, or a byte from either sum, passes them.",
 [FBB, "src/crc16.rs"], [("b2_message_block verify closure", FBB), ("data_blocks / first_data_block", FBB)],
 ["accept/reject and reported fields of the block parser"], HOOK)

prop("C07", "Splitting a message into data blocks does not change it",
 "However the sender divides the same message payload into data blocks of 1 to 256 bytes (a length byte of zero meaning 256), the receiver reports the same CRC, uncompressed size and content bytes and consumes exactly the bytes of the block. The only segmentation that is refused is one whose first data block is too short to carry the CRC and size.",
 ["inputs"], "every payload and every division of it into data blocks",
 "The samples contain one segmentation each; the 256-byte block written as length 0 and multi-block messages with unusual splits are not covered.",
 [FBB], [("data_block length rule", FBB), ("data_blocks many_till", FBB)],
 ["reported content of the block parser"], HOOK)

prop("C08", "A partial message block always asks for more, never too much",
 "Given any proper prefix of a valid B2 message block, the receiver reports that it needs more data: it neither accepts nor rejects early, and never claims to need more bytes than really remain. Given a valid block followed by further bytes, it consumes exactly the block and leaves the further bytes untouched.",
 ["inputs", "fault_sequences"], "every valid block, every cut point, every following data",
 "Two tests cut one sample at two points; cuts inside the start marker, header, size fields or trailer are not covered.",
 [FBB], [("streaming nom parsers", FBB + " soh/stx/eot/data_block/checksum/header")],
 ["Incomplete/needed count of the block parser"], HOOK)

prop("C09", "Message headers are read exactly or refused",
 "A B2 message header yields exactly the title and the decimal restart offset on the wire; titles contain only printable ASCII and spaces, so text taken from the wire is always valid text. A complete header that is malformed (length above 88, missing separator or terminator, stray bytes, non-digit, empty or overflowing offset) is refused at once; it is never accepted and never treated as merely incomplete.",
 ["inputs"], "every byte sequence as header",
 "Both samples carry well-formed headers; no test presents a malformed one.",
 [FBB], [("header", FBB)], ["result of the block/header parser"], HOOK)

prop("C10", "Message proposals are read field by field, exactly",
 "Every well-formed FBB proposal line (FA or FB) and every well-formed Winlink proposal line (FC EM) is accepted with the message type, sender, destination, recipient, message id and sizes exactly as written, compressed and uncompressed size never exchanged, and consumes the line including its carriage return only. A size that cannot be represented is refused rather than truncated, and over-long or empty fields are refused.",
 ["inputs"], "every proposal line within the field limits, and every byte sequence",
 "No test touches proposal parsing at all.",
 [FBB], [("fbb_proposal / winlink_proposal", FBB), ("field parsers and from_parts order", FBB)],
 ["parsed proposal fields"], HOOK)

prop("C11", "Proposal answers are read one per proposal, exactly",
 "An answer line to N proposals yields exactly N answers in order: plus, Y and H mean accept from the start, an exclamation mark or A followed by a decimal offset means accept from that offset, equals and L mean defer, and minus, N, R and E mean reject. Any other character, a missing answer, or an offset that does not fit is refused and never guessed.",
 ["inputs"], "every answer line and every number of proposals from 1 to 5",
 "No test touches answer parsing.",
 [FBB], [("selection / selection_element", FBB)], ["parsed answers"], HOOK)

prop("C12", "Station identities are always well-formed upper-case call signs",
 "A text is accepted as a station identity if and only if the whole of it is a call sign: an optional digit, one or more letters, one or more digits, a letter and then letters or digits, optionally followed by a dash and a one- or two-character alphanumeric suffix. The stored identity is the text in upper case, so identities differing only in case are equal, normalisation is idempotent, and an identity can never contain spaces, control characters, or anything that would split or extend a modem command line.",
 ["inputs"], "every text",
 "Two tests use one call sign in upper and lower case; nothing tries a text that merely contains a call sign.",
 [TY], [("STATION pattern", TY), ("StationId normalizer", TY)], ["StationId::new / StationIdRef::from_str result"])

prop("C13", "Modem commands are rendered as exactly one well-formed line",
 "Every modem command is sent as its documented keyword and parameters, each separated by exactly one space, followed by a single carriage return and nothing else: LISTEN ON/OFF/CQ, CONNECT origin target with optional via and one or two digipeaters in order, DISCONNECT, ABORT, MYCALL with every call sign in order, COMPRESSION OFF/TEXT/FILES and BW500/2300/2750. Different commands never produce the same line.",
 ["inputs"], "every command value, every station identity in every position, every number of extra call signs",
 "No test renders a command.",
 [VARA], [("Display impls of Command and its parts", VARA), ("manage_modem_thread write", VARA)], ["bytes written on the control connection"])

prop("C14", "Each modem line means exactly one thing, or is refused",
 "A line from the modem is understood if and only if the whole line is one of: OK, WRONG, IAMALIVE, BUFFER n, BUSY ON/OFF, PTT ON/OFF, DISCONNECTED, PENDING, CANCELPENDING, CONNECTED a b, REGISTERED a, where a and b are call signs of three to seven capital letters and digits, optionally with a dash and a suffix of one or two of them; the reported value (count, on/off, station identities in order) is exactly the one on the line. Every other line, including one with extra or missing text, is refused and never taken for a different report; no line makes the parser panic.",
 ["inputs"], "every byte sequence as a line",
 "No test parses a modem line.",
 [VARA, TY], [("tnc_response and its sub-parsers", VARA), ("callsign", TY)], ["parsed response"], HOOK)

prop("C15", "Modem status does not depend on how the control stream is split",
 "For every sequence of well-formed modem lines and every division of the byte stream into reads, the published status (busy, buffer, PTT, connection, registered call signs, heartbeat) and the sequence of command results after the last read are the same as if each line had arrived alone: each line takes effect exactly once, in order, and changes only its own status. An incomplete line has no effect until its carriage return arrives and is not lost.",
 ["inputs", "schedules"], "every line sequence, every split into reads, every interleaving with commands",
 "No test drives the control connection; a socket delivers one split per run.",
 [VARA], [("do_a_thing buffer retention", VARA), ("status watch channels", VARA + " channel()/TncStatusSender")],
 ["status accessors", "command results"], HOOK,
 [("upd_buffer", "bytes received but not yet forming a complete line", VARA)])

prop("C16", "Every modem command gets its own answer, in order",
 "Commands are written to the modem once each, in the order they were issued, and the n-th OK or WRONG from the modem is delivered to the n-th command: a caller gets success only if its own command was answered OK and an error only if its own was answered WRONG or the link failed. Closing the command side still delivers the answers of commands already sent before the control task ends, without blocking the thread it runs on.",
 ["schedules", "histories"], "every interleaving of up to several issued commands, modem answers, status lines and shutdown",
 "No test drives the control task; interleavings of issuing and answering are never explored.",
 [VARA], [("response_queue FIFO", VARA + " manage_modem_thread"), ("send_command", VARA)],
 ["command results seen by callers", "bytes written on the control connection"], HOOK)

prop("C17", "Losing the modem or rig link ends the session instead of hanging",
 "When the modem closes the control connection, or the rig's serial link reports end of stream or an error, at any point of the conversation, the task serving it ends with an error after a bounded number of steps instead of spinning, and every command still waiting for an answer fails instead of waiting forever. No task keeps running in a busy loop once its peer is gone.",
 ["fault_sequences", "schedules"], "every point at which the link can end, with any number of outstanding commands and any partial line",
 "No test closes a connection under the control tasks.",
 [VARA, KX3], [("do_a_thing handling of a zero-byte read", VARA), ("manage_rig_thread handling of a zero-byte read", KX3), ("connection watcher in connect", VARA)],
 ["task completion", "results of waiting callers"], HOOK)

prop("C18", "Connect reports the outcome of this attempt",
 "A connect request succeeds if and only if the modem accepts the command and the next connection report after it says connected (of reports that arrive together, the last counts); it fails if the command is refused or that report is anything else. The outcome never depends on connection reports that preceded the request, so a connection can be made again after any number of earlier connections, refusals and disconnections.",
 ["histories", "schedules"], "every history of earlier connection reports and every order of answer and report",
 "No test connects, let alone twice.",
 [VARA], [("VaraTnc::connect and the connection watch", VARA)], ["result of connect", "bytes written on the control connection"], HOOK)

prop("C19", "A connected stream carries the modem data and ends cleanly",
 "While connected, reads return exactly the bytes of the data connection in order and writes pass exactly the bytes given to it. After the modem reports disconnection, data that already arrived is still delivered, then every read returns end of stream and every write, flush and shutdown fails with connection-aborted, no matter how often they are called, and none of them panics or hangs: also when one task reads while another writes, and when either was waiting as the disconnection came.",
 ["schedules", "histories"], "every sequence of reads, writes, flushes and shutdowns and every position of the disconnection in it",
 "No test opens a stream.",
 [VARA], [("AsyncRead/AsyncWrite for VaraStream", VARA), ("remote-disconnect watcher in connect", VARA)], ["poll results of the stream"], HOOK)

prop("C20", "Dropping a live stream hangs up, dropping a dead one does not",
 "Dropping a connected stream without an explicit disconnect sends exactly one DISCONNECT to the modem; dropping it after the modem has reported disconnection sends nothing. An explicit disconnect sends DISCONNECT, an explicit abort sends ABORT, and a failed connect leaves nothing to hang up.",
 ["schedules", "histories"], "every position of the drop relative to the modem's reports",
 "No test drops a stream.",
 [VARA], [("PinnedDrop for VaraStream", VARA), ("force-disconnect task in connect", VARA)], ["bytes written on the control connection"], HOOK)

prop("C21", "Rig keying commands reach the radio exactly once and in order",
 "Each keying command handed to the rig task is written to the radio exactly once, in order, as TX; for transmit or RX; for receive, and nothing else is ever written. Whatever the radio sends, however it is split, and however writes are accepted piecemeal, no command is lost, duplicated, reordered or torn, and the task ends normally after the last command when its command side is closed.",
 ["schedules", "inputs"], "every command sequence, every well-formed radio output and split, every interleaving",
 "No test runs the rig task.",
 [KX3], [("manage_rig_thread select loop", KX3), ("Display of Command/TransmitState", KX3)], ["bytes written to the rig stream", "task completion"])

prop("C22", "Modem endpoints are resolved as configured",
 "A modem session is opened to the configured host on the configured control port, and its data connection goes to the configured data port or, when none is given, to the port directly after the control port. The one configuration without such a port (control port 65535 and no data port) is refused with an error before anything is connected; every setting takes effect regardless of the order in which the settings are made.",
 ["configurations"], "every host, control port and optional data port",
 "No test builds a modem session.",
 [VARA], [("VaraTncBuilder::build", VARA)], ["addresses passed to connect"], HOOK)

prop("C23", "Logging never changes behaviour",
 "Turning any log level on or off never changes what is accepted, rejected, published or written, and never causes a failure: with every log level enabled, no input from the radio, the modem, a message sender or the other station makes the code panic while it formats a log record.",
 ["inputs", "configurations"], "every input and every log level setting",
 "Tests run with logging off, so log arguments are never evaluated.",
 [FBB, VARA, KX3, MAIN], [("arguments of tracing macros", FBB + ", " + VARA + ", " + KX3 + ", " + MAIN)], ["result of the parsers and tasks with log levels on"], HOOK)

prop("C24", "The program conducts a session faithfully",
 "Run against a modem, a radio and a user, the program gives the modem its own call sign, text compression and the wide bandwidth before it asks for a connection from that call sign to the given target, and it asks only if the modem accepted them all and the radio's port could be opened at the given path and speed. It prints every complete line the other station sends up to and with the prompt (a line ending in >) and, once the user has confirmed, every further one, each once, whole and in order, however the data is split into reads; it sends its identification and FF exactly once, and only after the prompt and the user's confirmation. Each change of the modem's PTT is passed on to the radio in order; of changes reported together the last always takes effect. When the modem refuses, or the connection or the modem is lost at any point, the program stops reading and ends (after the prompt, once the user has confirmed) instead of spinning or waiting forever.",
 ["inputs", "schedules"], "every text and split of it, every time of the user's confirmation, every answer and end of the connection, every sequence of PTT reports",
 "No test runs the program.",
 [MAIN], [("main", MAIN), ("line", MAIN)], ["bytes written to the modem, the data connection and the radio", "text printed", "the program's end"])

prop("C25", "The message received is the message sent",
 "For every message, compressing it as a sender does, putting the message's size and the CRC in front, dividing the payload in any way into data blocks of 1 to 256 bytes (the first of which carries at least the CRC and the size) and parsing and unpacking the block gives back exactly that message. What an intact block unpacks to depends only on its announced size and the content of its blocks taken together: it has exactly the announced size, and if the content is too short for that, unpacking fails instead of delivering something else.",
 ["inputs"], "every message and every division into blocks; every intact block",
 "The one message the tests unpack comes in one division, and nothing asks what an intact block with another content gives.",
 [FBB, LZ], [("b2_message_block", FBB), ("CompressedMessage::decompress", FBB), ("Decoder::decode, Encoder::encode", LZ)], ["unpacked bytes or error"], HOOK)

open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties;", [p["id"] for p in P if len(p["title"]) > 80])
