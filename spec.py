"""What is run for each property."""

COMMON_ASSUMPTIONS = [
    "the LLVM IR rustc 1.99.1 produces (opt-level 2, overflow checks and debug assertions on, fat LTO) means what the source means; "
    "the executor follows the LLVM language reference, treating undef/poison as 0",
    "memory allocation succeeds",
]


def R(entry, *params, **kw):
    d = {"entry": entry, "params": list(params)}
    d.update(kw)
    return d


PROPERTIES = {
    "C01": {
        "quick": [R("h_crc_step", covers=[1]), R("h_crc_empty", covers=[1]), R("h_crc_reach", covers=[1]), R("h_crc_message", 16, covers=[1])],
        "thorough": [R("h_crc_step", covers=[1]), R("h_crc_empty", covers=[1]), R("h_crc_reach", covers=[1]), R("h_crc_message", 300, covers=[1])],
        "bounds": "one step: all 2^16 running values x 2^8 bytes (with the empty sequence this covers every length by induction on "
                  "the number of steps); fixed prefixes of every length below 16 (thorough: 300) followed by one and by three arbitrary bytes",
    },
    "C02": {
        "quick": [
            R("h_lz_any", 0, 1, 0, covers=[1]), R("h_lz_any", 5, 1, 70, covers=[1]), R("h_lz_letters", 6, 3, covers=[1]), R("h_lz_letters", 4, 4, covers=[1]),
            R("h_lz_long", 300, 0, covers=[1]), R("h_lz_long", 2300, 0, covers=[1]), R("h_lz_long", 2300, 2, covers=[1]), R("h_message_large", 20000, 90, covers=[1]), R("h_message_large", 66000, 220, covers=[1]),
            R("h_win_letters", 0, 12, 2, covers=[1], scaled="win"), R("h_win_letters", 0, 8, 3, covers=[1], scaled="win"),
            R("h_win_letters", 20, 8, 3, covers=[1], scaled="win"), R("h_win_letters", 40, 6, 4, covers=[1], scaled="win"),
        ],
        "thorough": [
            R("h_lz_any", 0, 2, 0, covers=[1]), R("h_lz_any", 58, 1, 70, covers=[1]), R("h_lz_letters", 9, 3, covers=[1]), R("h_lz_letters", 7, 4, covers=[1])]
            + [R("h_lz_long", n, k, covers=[1]) for n, k in ((300, 1), (2300, 0), (2300, 2), (4500, 0), (4500, 3), (4500, 4), (4500, 5), (4500, 6), (4500, 7), (4700, 8))] + [R("h_message_large", 20000, 90, covers=[1]), R("h_message_large", 66000, 220, covers=[1]), R("h_message_large", 66000, 1, covers=[1])]
            + [R("h_win_letters", b, n, k, covers=[1], scaled="win") for b, n, k in ((0, 17, 2), (0, 11, 3), (33, 11, 3), (7, 8, 4), (48, 15, 2))],
        "bounds": "real constants: every message of one byte (thorough: two), every message of up to 6 (9) letters out of 3 and 4 (7) out of 4, one arbitrary "
                  "byte inside fixed text; fixed texts of 300, 2300 (thorough up to 4700) bytes of several kinds with a repeated passage of every listed length "
                  "(2-4, 59-62) at every listed distance (1-2049) at three places, followed by a byte that may be 0; fixed texts of 20000 and 66000 bytes of several kinds (past the code's rebuilding) ending in either of two. Window scaled to 16 and matches to 6 "
                  "(src/lzhuf.rs with the constants N and F replaced): every message of 12 (17) letters out of 2, 8 (11) out of 3, also after 20 to 48 fixed letters",
    },
    "C03": {
        "quick": [
            R("h_lz_stream", 0, 1, 9, 30, covers=[1, 2], conc=2), R("h_lz_stream", 2, 1, 6, 20, covers=[1, 2], conc=2), R("h_lz_stream", 0, 2, 0, 2, covers=[1, 2], conc=2),
            R("h_lz_stream", 0, 1, 0, 1, covers=[1, 2], conc=2), R("h_lz_stream", 30, 1, 20, 250, conc=2), R("h_positions_any", covers=[1, 2]),
        ],
        "thorough": [
            R("h_lz_stream", 0, 2, 5, 20, covers=[1, 2], conc=2), R("h_lz_stream", 4, 2, 6, 70, covers=[1], conc=2), R("h_lz_stream", 0, 2, 0, 3, covers=[1, 2], conc=2),
            R("h_lz_stream", 30, 1, 20, 250, conc=2), R("h_lz_stream", 60, 1, 60, 3000, conc=2), R("h_positions_any", covers=[1, 2]),
        ],
        "bounds": "one or two arbitrary bytes at the start of a stream or after fixed bytes, followed by fixed bytes, for several announced sizes, each compared with "
                  "smaller sizes and shorter streams; every distance code of up to three bytes",
    },
    "C04": {
        "quick": [
            R("h_tree3_start", covers=[1], scaled="tree3"), R("h_tree3_step", covers=[1], scaled="tree3"), R("h_tree3_rebuild", covers=[1], scaled="tree3"),
            R("h_tree4_start", covers=[1], scaled="tree4"), R("h_tree4_step", covers=[1], scaled="tree4"), R("h_tree4_rebuild", covers=[1], scaled="tree4"),
            R("h_codes_history", 0, 1, 1, covers=[1]), R("h_codes_history", 1, 1, 0, covers=[1]), R("h_codes_history", 2, 1, 0, covers=[1]),
            R("h_codes_history", 3, 3, 0, covers=[1]), R("h_codes_history", 4, 2, 0, covers=[1]), R("h_codes_history", 6, 1, 0, covers=[1]),
        ],
        "thorough": [
            R("h_tree3_start", covers=[1], scaled="tree3"), R("h_tree3_step", covers=[1], scaled="tree3"), R("h_tree3_rebuild", covers=[1], scaled="tree3"),
            R("h_tree4_start", covers=[1], scaled="tree4"), R("h_tree4_step", covers=[1], scaled="tree4"), R("h_tree4_rebuild", covers=[1], scaled="tree4"),
            R("h_tree5_start", covers=[1], scaled="tree5"), R("h_tree5_step", covers=[1], scaled="tree5"), R("h_tree5_rebuild", covers=[1], scaled="tree5")]
            + [R("h_codes_history", k, 3, 0, covers=[1]) for k in range(1, 8)] + [R("h_codes_history", k, 1, 1, covers=[1]) for k in (0, 1)],
        "bounds": "alphabet scaled to 3 symbols with the real frequency limit, 4 (limit 60) and, thorough, 5 (limit 30): every tree satisfying the invariant (every shape, "
                  "labelling and frequency), every next symbol - so every history of any length at those alphabets; all 314 symbols with real constants: after each of a few "
                  "fixed histories (none, every symbol once up and down, a steep one with codes over 16 bits, one symbol to just before, at and past the rebuild; thorough: "
                  "mixed past several rebuilds), every next symbol, and after none every two",
    },
    "C05": {
        "quick": [R("h_positions", covers=[1]), R("h_bits_written", 3, covers=[1]), R("h_bits_read", 3, 8, covers=[1, 2, 3])],
        "thorough": [R("h_positions", covers=[1]), R("h_bits_written", 4, covers=[1]), R("h_bits_read", 4, 12, covers=[1, 2, 3])],
        "bounds": "every distance 0..2047 with any 0 to 7 bits before it and any byte after it; every 3 (thorough: 4) codes of 1 to 8 bits; every sequence of 8 (12) bit and byte "
                  "reads from every 3 (4) byte stream",
    },
    "C06": {
        "quick": [R("h_fbb_integrity", 0, covers=[1, 2]), R("h_fbb_integrity", 3, covers=[1, 2]), R("h_fbb_integrity", 8, covers=[1, 2]), R("h_fbb_corrupt", 2, covers=[1, 2]), R("h_fbb_corrupt", 6, covers=[1, 2]), R("h_fbb_blocks_any", 10, covers=[1, 2, 3]),
                  R("h_fbb_integrity_long", 1, 0, covers=[1, 2]), R("h_fbb_integrity_long", 3, 0, 255, 0, covers=[1, 2]), R("h_fbb_integrity_long", 3, 6, 0, 1, covers=[1, 2]),
                  R("h_fbb_integrity_long", 5, 6, 1, 2, 255, 254, covers=[1, 2])],
        "thorough": [R("h_fbb_integrity", n, covers=[1, 2]) for n in (0, 1, 3, 8, 16)] + [R("h_fbb_corrupt", n, covers=[1, 2]) for n in (0, 2, 6, 12)]
            + [R("h_fbb_blocks_any", 12, covers=[1, 2, 3]), R("h_fbb_blocks_any", 14, covers=[1, 2, 3]),
               R("h_fbb_integrity_long", 1, 0, covers=[1, 2]), R("h_fbb_integrity_long", 3, 0, 255, 0, covers=[1, 2]), R("h_fbb_integrity_long", 3, 6, 0, 1, covers=[1, 2]),
               R("h_fbb_integrity_long", 5, 6, 1, 2, 255, 254, covers=[1, 2]), R("h_fbb_integrity_long", 5, 0, 0, 0, 0, 0, covers=[1, 2])],
        "bounds": "blocks built around up to 8 (thorough: 16) bytes of arbitrary content, any CRC, size and checksum; every single-byte corruption of a valid block of 6 (12) bytes; every byte sequence of up to 10 (14) bytes as data blocks; "
                  "long messages of up to five blocks of 1 to 256 bytes with arbitrary bytes at their edges, any CRC, size and checksum",
    },
    "C07": {
        "quick": [R("h_fbb_split", 9, covers=[1, 2]), R("h_fbb_split", 11, covers=[1, 2]), R("h_fbb_split_long", 1, 0, covers=[1]), R("h_fbb_split_long", 2, 0, 0, covers=[1]), R("h_fbb_split_long", 4, 0, 1, 0, 255, covers=[1])],
        "thorough": [R("h_fbb_split", n, covers=[1, 2]) for n in (9, 11, 15)] + [R("h_fbb_split_long", 1, 0, covers=[1]), R("h_fbb_split_long", 2, 0, 0, covers=[1]), R("h_fbb_split_long", 4, 0, 1, 0, 255, covers=[1])],
        "bounds": "payloads of up to 11 (thorough: 15) arbitrary bytes in every division into blocks, and long payloads of up to four blocks (256-byte blocks, length byte 0, among them) with arbitrary bytes at the block edges",
    },
    "C08": {
        "quick": [R("h_fbb_prefix", 2, 2, 3, covers=[1, 2]), R("h_fbb_prefix", 3, 3, 4, covers=[1, 2]), R("h_fbb_prefix", 2, 3, 5, covers=[1, 2]), R("h_fbb_prefix_long", covers=[1])],
        "bounds": "valid blocks of up to three data blocks with arbitrary content of up to 5 bytes each, every cut and every following byte; one 768-byte payload in blocks of 256, 255, 1 and 256 bytes with arbitrary bytes at the edges, cut at every place",
    },
    "C09": {
        "quick": [R("h_fbb_header_any", 8, covers=[1, 2, 3]), R("h_fbb_header_any", 11, covers=[1, 2, 3]), R("h_fbb_header_content", 9, covers=[1, 2]), R("h_fbb_header_long", 3, covers=[1, 2]), R("h_fbb_header_offset", 0, 4, covers=[1]), R("h_fbb_header_offset", 1, 6, covers=[1]), R("h_fbb_header_offset", 2, 5, covers=[1, 2]), R("h_fbb_header_offset", 3, 4, covers=[1, 2]), R("h_fbb_header_offset", 4, 6, covers=[2]), R("h_fbb_header_offset", 5, 4, covers=[1]), R("h_fbb_header_offset", 6, 6, covers=[2]), R("h_fbb_header_length", covers=[1, 2])],
        "thorough": [R("h_fbb_header_any", n, covers=[1, 2, 3]) for n in (8, 9, 10, 11)] + [R("h_fbb_header_content", n, covers=[1, 2]) for n in (8, 9)] + [R("h_fbb_header_long", n, covers=[1, 2]) for n in (3, 6)]
            + [R("h_fbb_header_offset", 0, 4, covers=[1]), R("h_fbb_header_offset", 1, 6, covers=[1]), R("h_fbb_header_offset", 2, 5, covers=[1, 2]), R("h_fbb_header_offset", 3, 4, covers=[1, 2]), R("h_fbb_header_offset", 4, 6, covers=[2]), R("h_fbb_header_offset", 5, 4, covers=[1]), R("h_fbb_header_offset", 6, 6, covers=[2]), R("h_fbb_header_length", covers=[1, 2])],
        "bounds": "every byte sequence of up to 11 bytes; every complete header of 9 content bytes; long titles up to the limit around an arbitrary byte (thorough: six) with arbitrary offsets; every length byte",
    },
    "C10": {
        "quick": [R("h_fbb_proposal_any", 15, 1, covers=[1, 2]), R("h_winlink_proposal_any", 14, 1, covers=[1, 2])] + [R("h_fbb_proposal_fields", k, covers=[1, 2]) for k in range(5)]
            + [R("h_winlink_proposal_fields", k, covers=[1, 2, 3]) for k in range(6)] + [R("h_fbb_proposal_utf8", 4, covers=[1, 2])],
        "thorough": [R("h_fbb_proposal_any", 15, 1, covers=[1, 2]), R("h_winlink_proposal_any", 14, 1, covers=[1, 2])] + [R("h_fbb_proposal_fields", k, covers=[1, 2]) for k in range(5)]
            + [R("h_winlink_proposal_fields", k, covers=[1, 2, 3]) for k in range(6)] + [R("h_fbb_proposal_utf8", k, covers=[1, 2]) for k in (4, 6)],
        "bounds": "every line of 15 bytes after the fixed start of an FBB proposal and of 14 after that of a Winlink proposal; well-formed lines of both kinds with each field in turn of every length about its limit and with arbitrary characters, also outside ASCII, sizes of up to 10 digits",
    },
    "C11": {
        "quick": [R("h_fbb_answers", 1, 4, 0, covers=[1, 2]), R("h_fbb_answers", 1, 6, 3, covers=[1, 2]), R("h_fbb_answers", 2, 5, 3, covers=[1, 2]), R("h_fbb_answers", 3, 5, 3, covers=[1, 2]), R("h_fbb_answers", 3, 7, 3, covers=[1, 2]), R("h_fbb_answer_offset", 6, covers=[1, 2])],
        "thorough": [R("h_fbb_answers", 1, 4, 0, covers=[1, 2]), R("h_fbb_answers", 1, 6, 3, covers=[1, 2]), R("h_fbb_answers", 2, 5, 3, covers=[1, 2]), R("h_fbb_answers", 3, 7, 3, covers=[1, 2]), R("h_fbb_answers", 5, 7, 3, covers=[1, 2]), R("h_fbb_answer_offset", 8, covers=[1, 2])],
        "bounds": "every answer text of up to 7 characters for 1 to 3 (thorough: 5) proposals; offsets of up to 6 (8) arbitrary digits",
    },
    "C12": {
        "quick": [R("h_station_any", 9, covers=[1, 2], merge=False, conc=2), R("h_station_near", 3, 1, covers=[1, 2], merge=False, conc=2), R("h_station_foreign", covers=[2], merge=False, conc=2)],
        "thorough": [R("h_station_any", 11, covers=[1, 2], merge=False, conc=2), R("h_station_near", 4, 2, covers=[1, 2], merge=False, conc=2), R("h_station_foreign", covers=[2], merge=False, conc=2)],
        "bounds": "every ASCII text of up to 9 (thorough: 11) bytes; five call signs of up to 38 bytes with any window of 3 (4) bytes replaced by any ASCII bytes, one (two) more or fewer; "
                  "a call sign with any two- to four-byte character inserted or put in anywhere",
    },
    "C13": {
        "quick": [R("h_vara_command", 4, 4, covers=[1]), R("h_vara_command", 1, 24, covers=[1]), R("h_vara_command", 12, 1, covers=[1])],
        "thorough": [R("h_vara_command", 8, 5, covers=[1]), R("h_vara_command", 2, 12, covers=[1]), R("h_vara_command", 1, 64, covers=[1]), R("h_vara_command", 32, 1, covers=[1])],
        "bounds": "every kind of command; call signs of every length up to 4 (thorough: 8) with arbitrary characters, up to 4 (5) of them in MYCALL, every kind of path; up to 24 (64) call signs in MYCALL; call signs of up to 12 (32) characters elsewhere",
    },
    "C14": {
        "quick": [R("h_vara_line_any", 12, covers=[1, 2]), R("h_vara_line_near", 3, 1, covers=[1, 2]), R("h_vara_line_calls", 17, covers=[1, 2]),
                  R("h_vara_line_buffer", 0, 4, covers=[1, 2]), R("h_vara_line_buffer", 18, 4, covers=[1, 2]), R("h_vara_line_session", 1, 1, covers=[1, 2, 4])],
        "thorough": [R("h_vara_line_any", 13, covers=[1, 2]), R("h_vara_line_near", 5, 2, covers=[1, 2]), R("h_vara_line_calls", 24, covers=[1, 2]),
                     R("h_vara_line_buffer", 0, 5, covers=[1, 2]), R("h_vara_line_buffer", 18, 4, covers=[1, 2]), R("h_vara_line_session", 2, 1, covers=[1, 2, 4])],
        "bounds": "every line of up to 12 bytes; every proper line with any window of 3 (thorough: 5) bytes replaced by anything, one (two) bytes more or fewer; CONNECTED and REGISTERED "
                  "followed by every up to 17 (24) bytes; BUFFER with up to 4 (5) arbitrary digits, and with up to 4 after the first 18 digits of the largest number; the same through a whole session, with any one byte (two bytes) of a proper line replaced, one more or fewer",
    },
    "C15": {
        "quick": [R("h_vara_split", 2, 1, covers=[1]), R("h_vara_split", 3, 0, covers=[1]), R("h_vara_burst", 6, 100, 8, 80, covers=[1])],
        "thorough": [R("h_vara_split", 2, 2, covers=[1]), R("h_vara_split", 3, 1, covers=[1]), R("h_vara_burst", 30, 300, 16, 200, covers=[1])],
        "bounds": "every sequence of 2 reports (9 kinds, arbitrary two-digit counts) cut at any one place (thorough: two), every sequence of 3 in one piece (cut at any one place); either branch of the "
                  "control task's select! looked at first; up to 80 commands one by one and then 100 reports together with 6 answers, cut at any of 8 places",
    },
    "C16": {
        "quick": [R("h_vara_commands", 2, 0, 8, 3, covers=[1]), R("h_vara_commands", 2, 1, 6, 3, covers=[1, 2]), R("h_vara_commands", 3, 0, 4, 1, covers=[1]),
                  R("h_vara_drain", 2, 2, covers=[1, 2]), R("h_vara_burst", 40, 60, 8, 30, covers=[1])],
        "thorough": [R("h_vara_commands", 2, 0, 16, 4, covers=[1]), R("h_vara_commands", 2, 1, 9, 3, covers=[1, 2]), R("h_vara_commands", 3, 1, 5, 2, covers=[1, 2]), R("h_vara_commands", 4, 0, 5, 0, covers=[1]),
                     R("h_vara_drain", 3, 2, covers=[1, 2]), R("h_vara_burst", 100, 60, 8, 30, covers=[1])],
        "bounds": "2 (thorough: up to 4) callers at once; the first 8 (16) steps of tasks, callers and modem in any order, answers split or joined with reports, a caller giving up at any of the first 6 (9) steps, "
                  "writes accepted whole or piecemeal; 2 (3) commands answered, or not, after their senders are gone; 40 callers (thorough: 100) answered at once, one of them or none with WRONG, with 60 reports among the answers",
    },
    "C17": {
        "quick": [R("h_vara_link_loss", 2, 9, 3, covers=[1]), R("h_vara_link_loss_connected", covers=[1, 2]), R("h_vara_drain", 2, 2, covers=[1, 2]), R("h_rig_loss", 2, 3, 3, covers=[1]), R("h_vara_loss_many", 40, covers=[1]), R("h_vara_write_loss", 3, covers=[1, 2])],
        "thorough": [R("h_vara_link_loss", 2, 12, 4, covers=[1]), R("h_vara_link_loss", 3, 8, 2, covers=[1]), R("h_vara_link_loss_connected", covers=[1, 2]), R("h_vara_drain", 3, 2, covers=[1, 2]), R("h_rig_loss", 4, 4, 3, covers=[1]), R("h_vara_loss_many", 100, covers=[1]), R("h_vara_write_loss", 4, covers=[1, 2])],
        "bounds": "2 (thorough: 3) callers, the link ending or failing after any of the first 9 (12) steps in any order, also in the middle of a line; at each stage of a connection; with answers due after the senders are gone; "
                  "the rig link with up to 2 (4) commands and 3 (4) arbitrary bytes; 40 (100) callers at once of which any number is answered; writing alone failing; six kinds of failure",
    },
    "C18": {
        "quick": [R("h_vara_connect", 2, 3, 0, covers=[1, 2, 3]), R("h_vara_connect", 1, 6, 0, covers=[1, 2, 3]), R("h_vara_connect", 1, 3, 1, covers=[1, 2, 3]), R("h_vara_connect", 2, 1, 1, covers=[1, 2, 3]), R("h_vara_again", 40, covers=[1, 2, 3])],
        "thorough": [R("h_vara_connect", 4, 1, 0, covers=[1, 2, 3]), R("h_vara_connect", 3, 4, 0, covers=[1, 2, 3]), R("h_vara_connect", 2, 8, 0, covers=[1, 2, 3]), R("h_vara_connect", 2, 3, 1, covers=[1, 2, 3]), R("h_vara_connect", 3, 0, 1, covers=[1, 2, 3]), R("h_vara_again", 200, covers=[1, 2, 3])],
        "bounds": "every history of up to 2 (thorough: 4) events out of: any connection report, a connection made and ended, a connect refused, a connect failed, a connect given up at any stage (fewer of those); then a connect with any answer and up to 2 reports, together with "
                  "the answer or after it; the first 3 to 6 (8) choices of the control task's select! open; 40 (200) connections of one kind one after another",
    },
    "C19": {
        "quick": [R("h_vara_stream", 4, 1, covers=[1, 2, 3, 4, 5]), R("h_vara_stream_wake", 2, covers=[1, 2]), R("h_vara_stream_halves", 3, 1, covers=[1, 2, 3, 4, 5]), R("h_vara_stream_halves", 4, 0, covers=[1, 2, 3, 4, 5]), R("h_vara_stream_large", 5000, covers=[1]), R("h_vara_stream_large", 70000, covers=[1])],
        "thorough": [R("h_vara_stream", 5, 0, covers=[1, 2, 3, 4, 5]), R("h_vara_stream", 4, 4, covers=[1, 2, 3, 4, 5]), R("h_vara_stream_wake", 4, covers=[1, 2]), R("h_vara_stream_halves", 4, 1, covers=[1, 2, 3, 4, 5]), R("h_vara_stream_halves", 5, 0, covers=[1, 2, 3, 4, 5]), R("h_vara_stream_large", 300000, covers=[1])],
        "bounds": "every sequence of 4 (thorough: 5) out of: data arriving (1 to 3 arbitrary bytes), disconnection, other reports, a read into 1 to 4 bytes, a write of 1 or 2 bytes accepted whole or piecemeal, a vectored write, flush, "
                  "shutdown; reads waiting when data or the disconnection arrives; one task reading while another writes, every sequence of 4 (5) out of: data, the disconnection, another report, a write of 2 arbitrary bytes, flush or shutdown begun, the modem taking nothing (or one byte) for a while, the read given up and begun again, either task run first; 70000 (300000) bytes each way, one of them arbitrary, in pieces and buffers of three sizes",
    },
    "C20": {
        "quick": [R("h_vara_hang_up", 7, covers=[1, 2, 3, 4, 5, 6, 7]), R("h_vara_again", 40, covers=[1, 2, 3])],
        "thorough": [R("h_vara_hang_up", 12, covers=[1, 2, 3, 4, 5, 6, 7]), R("h_vara_again", 200, covers=[1, 2, 3])],
        "bounds": "a stream dropped while connected, after the disconnection, with reports unread, with other commands queued before and after the drop, after an explicit disconnect or abort, after a failed connect, and on a second connection; writes accepted whole or piecemeal, answers "
                  "OK or WRONG; the first 7 (thorough: 12) choices of the control task's select! open; 40 (200) connections one after another",
    },
    "C21": {
        "quick": [R("h_rig_keying", 2, 2, 1, covers=[1]), R("h_rig_keying", 3, 1, 2, covers=[1]), R("h_rig_long", 80, 1500, covers=[1])],
        "thorough": [R("h_rig_keying", 2, 3, 3, covers=[1]), R("h_rig_keying", 4, 1, 2, covers=[1]), R("h_rig_keying", 3, 2, 1, covers=[1]), R("h_rig_long", 300, 5000, covers=[1])],
        "bounds": "2 or 3 (thorough: 4) commands of either kind, 1 or 2 (3) arbitrary bytes from the radio without an empty message, cut anywhere, in any order with the commands; the task polled not at all, once or until it waits after "
                  "each; four ways of accepting writes piecemeal; queues of 1 and 2; 80 (300) commands in three patterns, queues of 1 to 4, with 1500 (5000) bytes from the radio, in messages of 5 or 40 bytes or without any end",
    },
    "C22": {
        "quick": [R("h_vara_endpoints", covers=[1, 2])],
        "bounds": "all control and data ports, all IPv4 hosts, IPv6 hosts with three arbitrary bytes; every subset and order of settings, made once or twice; either connection refused",
    },
    "C23": {
        "quick": [R("h_log_blocks", 1, covers=[1, 2]), R("h_log_rig", 3, covers=[1, 2]), R("h_log_modem_any", 3, covers=[1, 2]), R("h_log_modem_near", 1, covers=[1, 2]), R("h_log_commands", covers=[1, 2]),
                  R("h_log_connection", covers=[1, 2]), R("h_log_lzhuf", 1, 0, 0, covers=[1, 2]), R("h_log_lzhuf", 0, 1, 3, covers=[1, 2]), R("h_log_app", 1, 1, covers=[1, 2])],
        "thorough": [R("h_log_blocks", 4, covers=[1, 2]), R("h_log_rig", 4, covers=[1, 2]), R("h_log_modem_any", 4, covers=[1, 2]), R("h_log_modem_near", 1, covers=[1, 2]), R("h_log_commands", covers=[1, 2]),
                  R("h_log_connection", covers=[1, 2]), R("h_log_lzhuf", 1, 0, 0, covers=[1, 2]), R("h_log_lzhuf", 0, 1, 6, covers=[1, 2]), R("h_log_app", 2, 1, covers=[1, 2])],
        "bounds": "a log that formats every field, at each of the five levels, against none: message blocks of 7 (thorough: 10) arbitrary bytes with an arbitrary checksum; 3 (4) arbitrary bytes from the radio, cut anywhere; "
                  "3 (4) arbitrary bytes from the modem (outside ASCII: the five bytes UTF-8 tells apart), cut anywhere; seven proper lines with any one byte replaced by anything; every command answered either way; "
                  "connections made, refused and ended in every way; LZHUF packing and unpacking with one arbitrary byte; whole sessions of the program with an arbitrary byte (two) before the prompt and one after it, cut anywhere",
    },
    "C24": {
        "quick": [R("h_app_start", 2, covers=[1, 2, 3, 4, 5]), R("h_app_dialogue", 2, 2, 1, 1, 1, 1, 0, covers=[1, 2, 3, 4]), R("h_app_dialogue", 1, 1, 1, 1, 0, 0, 0, covers=[1, 2, 3, 4]),
                  R("h_app_dialogue", 1, 1, 1, 1, 0, 1, 70, covers=[1, 2, 3, 4]), R("h_app_keying", 3, 2, covers=[1, 2]), R("h_app_stalled", 3, 0, covers=[2]), R("h_app_long", 3, 5000, covers=[1]), R("h_app_long", 20, 100, covers=[1])],
        "thorough": [R("h_app_start", 6, covers=[1, 2, 3, 4, 5]), R("h_app_dialogue", 3, 2, 2, 1, 1, 1, 0, covers=[1, 2, 3, 4]), R("h_app_dialogue", 2, 1, 1, 1, 1, 0, 0, covers=[1, 2, 3, 4]),
                  R("h_app_dialogue", 2, 1, 1, 1, 0, 1, 70, covers=[1, 2, 3, 4]), R("h_app_dialogue", 2, 2, 1, 4, 2, 1, 0, covers=[1, 2, 3, 4]), R("h_app_keying", 6, 4, covers=[1, 2]), R("h_app_stalled", 5, 2, covers=[2]), R("h_app_long", 3, 20000, covers=[1]), R("h_app_long", 60, 5, covers=[1])],
        "bounds": "every answer of the modem at each step of setting up, its ports given or not, the radio there or not; texts of 2 (thorough: 3) arbitrary ASCII bytes (1 (2) arbitrary bytes) before an optional fixed prompt, "
                  "1 or 2 after it and 1 (up to 4) after the identification, also after 70 fixed characters, cut once (twice) each, the user confirming at any of the pauses; five ways for the connection to end; "
                  "3 (6) PTT reports, one at a time or together, at three stages, the radio taking commands whole or piecemeal, or nothing for a while; lines of 5000 (20000) characters and 20 (60) lines, one character arbitrary, in pieces of four sizes",
    },
    "C25": {
        "quick": [R("h_message_empty", covers=[1]), R("h_message_sent", 0, 1, 0, covers=[1]), R("h_message_sent", 5, 1, 60, covers=[1]), R("h_message_long", 300, covers=[1]), R("h_message_long", 700, covers=[1]),
                  R("h_message_any", 1, 3, covers=[1, 2]), R("h_message_any", 1, 30, covers=[1]), R("h_message_large", 66000, 90, covers=[1]), R("h_message_large", 66000, 1, covers=[1])],
        "thorough": [R("h_message_empty", covers=[1]), R("h_message_sent", 0, 1, 0, covers=[1]), R("h_message_sent", 5, 1, 60, covers=[1]), R("h_message_sent", 100, 1, 100, covers=[1]), R("h_message_long", 300, covers=[1]), R("h_message_long", 700, covers=[1]), R("h_message_long", 2500, covers=[1]),
                     R("h_message_any", 1, 3, covers=[1, 2]), R("h_message_any", 2, 2, covers=[1, 2]), R("h_message_any", 1, 30, covers=[1]), R("h_message_large", 66000, 1, covers=[1]), R("h_message_large", 66000, 3, covers=[1], steps=4000000000), R("h_message_large", 66000, 220, covers=[1]), R("h_message_large", 300000, 90, covers=[1], steps=4000000000)],
        "bounds": "messages of an arbitrary byte alone and in 65 (thorough: 200) fixed ones, of 300 and 700 (2500) fixed bytes ending in an arbitrary one, and none, in data blocks cut at up to two of six places; messages of 66000 (300000) fixed bytes of several kinds ending in either of two; intact blocks whose content is "
                  "any byte (any two) before fixed ones, announced as 0, 1, 5 and 60 bytes",
    },
}
NOT_APPLICABLE = {}
