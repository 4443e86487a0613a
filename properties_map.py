"""which Verus units and which harness group decide each property"""

TRUSTED = [
    "the rewrites of the extractor (listed in DESIGN.md) preserve the meaning of the extracted functions",
    "machine integers are bounded in the proofs; indices and arithmetic are checked, memory exhaustion is not",
]

PROPS = {
    "C01": dict(units=[("lzstate", None), ("lzdec", None), ("lzenc", None)], group="lzhuf", secs=20, secs_thorough=500,
        theorems=["property_c01", "property_c04", "lemma_round", "Encoder::encode", "Decoder::decode"],
        note="Encoder::encode is proved, for every message, to write the code of a sequence of literals and copies that stands for the message (the search for matches, its chains, the window and its mirror included), and Decoder::decode to invert every such stream; that compressing and decompressing gives the message back is a theorem over these contracts. Assumes the extractor's rewrites (drop glue included) and Verus/Z3."),
    "C04": dict(units=[("lzstate", None), ("lzenc", None)], group="lzhuf", secs=20, secs_thorough=500,
        theorems=["property_c04", "lemma_stream_decodes", "Encoder::encode", "Encoder::insert_node", "Encoder::delete_node", "Encoder::encode_char", "Encoder::encode_position", "Bitbuffer::put_code", "Bitbuffer::<Drop>::drop", "Encoder::finish"],
        note="Encoder::encode is proved, for every message, to write exactly the published code of a sequence of literals and copies that stands for the message, followed by fewer than eight bits of padding; that the published format decodes those bytes to exactly the message is a theorem over this contract. Assumes the extractor's rewrites (drop glue included) and Verus/Z3."),
    "C02": dict(units=[("lzstate", None), ("lzdec", None)], group="lzhuf", secs=20, secs_thorough=400,
        theorems=["Decoder::decode", "Biterator::get_bit", "Biterator::get_byte", "LzHufState::update"],
        note="Every panic, index, shift and overflow obligation of Decoder/Biterator/LzHufState is discharged for all inputs and sizes; Ok is returned exactly when the stream holds the whole output; loops carry termination measures. Assumes the extractor's rewrites and Verus/Z3."),
    "C03": dict(units=[("lzstate", None), ("lzdec", None)], group="lzhuf", secs=20, secs_thorough=400,
        theorems=["property_c03", "Decoder::decode", "Decoder::decode_char", "Decoder::decode_position", "LzHufState::update", "LzHufState::reconstruct"],
        note="Decoder::decode is proved equal to a recursive specification of the LZHUF format (window, look-ahead, adaptive table, position code), for all streams; the specification is the published algorithm written as spec functions and is cross-checked by an independent executable oracle. Assumes the extractor's rewrites and Verus/Z3."),
    "C05": dict(units=[("lzstate", None)], group="lzhuf", secs=20, secs_thorough=400,
        theorems=["property_c05", "LzHufState::new", "LzHufState::update", "LzHufState::reconstruct"],
        note="The tree invariant (sibling order, weights, parent links, total <= 0x8000) is proved inductive over new/update/reconstruct; completeness, uniqueness, order and the 21-bit depth bound are lemmas over it. Assumes the extractor's rewrites and Verus/Z3."),
    "C06": dict(units=[("crc16", None)], group="crc", secs=20,
        theorems=["property_c06", "crc_split", "Crc16::update"],
        note="Crc16::new/update/finish are proved equal to the bit-serial XMODEM CRC for every byte string and split, including the 256-entry table; assumes the extractor's rewrites and Verus/Z3."),
    "C07": dict(units=[("fbbblock", None), ("crc16", None)], group="fbb", secs=12, secs_thorough=400,
        theorems=["property_c07", "b2_message_block", "data_blocks", "header"],
        note="b2_message_block, header, data_blocks, first_data_block, data_block and checksum are proved equal to a specification of the block grammar for every byte string; that whatever is accepted is an intact block on the wire is a theorem over these contracts. Assumes contracts for the nom leaf parsers (tag, take, take_while, be_u8, le_u16/u32), u32::from_str_radix, to_le_bytes and Vec::get_mut, the mechanical expansion of the nom combinators, and Verus/Z3."),
    "C08": dict(units=[("fbbblock", None), ("crc16", None)], group="fbb", secs=12, secs_thorough=400,
        theorems=["property_c08", "b2_message_block", "data_blocks", "header"],
        note="b2_message_block, header, data_blocks, first_data_block, data_block and checksum are proved equal to a specification of the block grammar for every byte string; that every intact block is read exactly, leaving what follows is a theorem over these contracts. Assumes contracts for the nom leaf parsers (tag, take, take_while, be_u8, le_u16/u32), u32::from_str_radix, to_le_bytes and Vec::get_mut, the mechanical expansion of the nom combinators, and Verus/Z3."),
    "C09": dict(units=[("fbbblock", None), ("crc16", None)], group="fbb", secs=12, secs_thorough=400,
        theorems=["property_c09", "b2_message_block", "data_blocks", "header"],
        note="b2_message_block, header, data_blocks, first_data_block, data_block and checksum are proved equal to a specification of the block grammar for every byte string; that every proper prefix is incomplete and asks for no more than is missing is a theorem over these contracts. Assumes contracts for the nom leaf parsers (tag, take, take_while, be_u8, le_u16/u32), u32::from_str_radix, to_le_bytes and Vec::get_mut, the mechanical expansion of the nom combinators, and Verus/Z3."),
    "C10": dict(units=[("fbbprop", None)], group="fbb", secs=12, secs_thorough=400,
        theorems=["property_c10_proposal_is_read", "property_c10_only_proposals", "property_c10_extended_proposal_is_read", "property_c10_only_extended_proposals", "fbb_proposal", "winlink_proposal"],
        note="fbb_proposal, winlink_proposal, their field parsers and the three from_parts are proved equal to a specification of the proposal grammar for every byte string; that every well-formed line reads as its own tokens, that nothing else is accepted, that proper prefixes are incomplete and that a finished line is always decided are theorems over these contracts. Assumes contracts for the nom leaf parsers (tag, take_while_m_n), str::from_utf8, u16::from_str_radix, the newtype constructors made by braid (text kept as it is), the mechanical expansion of the nom combinators, and Verus/Z3."),
    "C11": dict(units=[("fbbsel", None)], group="fbb", secs=12, secs_thorough=400,
        theorems=["property_c11_answers_are_read", "property_c11_only_answers", "selection_element", "selection"],
        note="selection (any number of answers) and selection_element are proved equal to a specification of the answer line for every byte string; that every line of answers reads as its signs and offsets say and that nothing else is accepted are theorems over these contracts. Assumes contracts for the nom leaf parsers (tag, take_while_m_n), str::from_utf8, u16::from_str_radix, the mechanical expansion of the nom combinators, and Verus/Z3."),
    "C12": dict(units=[("types", None), ("braid", None), ("varaline", ["callsign"])], group="types", secs=20, secs_thorough=400,
        theorems=["property_c12_only_upper_case", "property_c12_idempotent", "property_c12_case_insensitive", "property_c12_modem_identifiers", "StationId::<Normalizer>::normalize", "StationId::new", "StationIdRef::from_str", "StationIdRef::from_normalized_str", "callsign"],
        note="The regular expression in the sources, read by the regex crate's own parser, is proved to be found in exactly the texts that are as a whole a call sign, and normalize to accept exactly those and to give their upper-casing, for every Unicode text; the constructors and conversions the braid macro generates (read from the compiler's own expansion) to keep exactly what normalize gave; that the result has only upper-case letters and digits, that doing it again changes nothing and that letter case does not matter are theorems over this contract; callsign, the wire parser, is proved to read 3 to 7 upper-case letters or digits. Assumes that Regex::is_match decides the textbook meaning of the expression, that the reference type's pointer cast keeps the text, aliri_braid's blanket validate, str::as_bytes and to_ascii_uppercase, the nom leaf parsers, and Verus/Z3."),
    "C13": dict(units=[("varacmd", None), ("varaloop", None)], group="vara", secs=15, secs_thorough=400,
        theorems=["property_c13_words", "property_c13_one_line", "property_c13_distinct", "Command::<Display>::fmt", "ConnectPath::<Display>::fmt", "MyCallSigns::<Display>::fmt", "manage_modem_thread"],
        note="Every Display implementation of the commands is proved to write exactly the command word and its arguments, for all commands and any number of call signs, and manage_modem_thread to put exactly those lines on the wire, each with one carriage return; that cutting the line at its spaces gives the words back, that it is one line and that distinct commands have distinct lines are theorems over these contracts. Assumes that String/Formatter append what is written, that an identifier's Display writes its text and that identifiers hold no space or carriage return (C12), the expansion of write!, and Verus/Z3."),
    "C14": dict(units=[("varaline", None), ("varastream", None)], group="vara", secs=20, secs_thorough=400,
        theorems=["property_c14_status_lines_are_read", "property_c14_only_status_lines", "property_c14_decided", "tnc_response", "do_a_thing"],
        note="tnc_response, every line parser below it and do_a_thing (which demands that the whole line is consumed) are proved equal to a specification of the status lines for every byte string; that each known line reads as exactly what it says and that everything else is an error are theorems over these contracts. Assumes contracts for the nom leaf parsers, str::from_utf8, u16::from_str_radix, the mechanical expansion of the nom combinators, and Verus/Z3."),
    "C15": dict(units=[("varaline", None), ("varastream", None), ("varaloop", None)], group="vara", secs=25, secs_thorough=400,
        theorems=["property_c15_fragmentation", "property_c15_lines", "property_c15_session", "do_a_thing", "line", "manage_modem_thread"],
        note="do_a_thing is proved to act on exactly the complete lines of what it has, keeping the rest, and manage_modem_thread to have published and answered exactly what everything received so far says, for every sequence of reads, every choice of select! and every fault; that the cuts do not matter and that no line is lost, repeated or merged are theorems over these contracts. Assumes contracts for the tokio channels, sockets and watch senders, BytesMut, VecDeque and the nom leaf parsers, the sequential reading of async code (select! branches that lose have no effect, checked to be cancel-safe calls), and Verus/Z3."),
    "C16": dict(units=[("varaloop", None), ("varastream", None), ("varaline", None), ("varacall", ["VaraTnc::send_command", "VaraTnc::send_callsign", "VaraTnc::send_compression", "VaraTnc::send_bandwidth", "VaraTnc::send_disconnect", "VaraTnc::send_abort", "VaraStream::disconnect", "VaraStream::abort"])], group="vara", secs=25, secs_thorough=400,
        theorems=["property_c16_own_reply", "property_c16_in_order", "property_c16_all_answered", "manage_modem_thread", "VaraTnc::send_command"],
        note="manage_modem_thread is proved, over every interleaving of commands and reads, to hand each result to the oldest command without one, and to end well only when no more commands can come and none is owed a reply; send_command and everything that calls it, to hand over one command and to succeed if and only if that command's own reply is OK; that the i-th command gets the i-th result, exactly once, is a theorem over these contracts. Assumes contracts for the tokio channels, sockets and watch senders, BytesMut, VecDeque and the nom leaf parsers, the sequential reading of async code (select! branches that lose have no effect, checked to be cancel-safe calls), and Verus/Z3."),
    "C17": dict(units=[("rig", None)], group="kx3", secs=15, secs_thorough=400,
        theorems=["property_c17_one_frame_each", "property_c17_told_apart", "manage_rig_thread", "Command::<Display>::fmt", "TransmitState::<Display>::fmt"],
        note="manage_rig_thread is proved, for every order sequence, every choice of select! and every fault of the port, to have written exactly the frames of the orders taken, in order (a part of the last one if the port failed), and to end well only when no more orders can come. Assumes contracts for mpsc::Receiver::recv, write_all, read_buf, String and BytesMut, the sequential reading of async code (select! branches that lose have no effect, checked to be cancel-safe calls), and Verus/Z3."),
    "C18": dict(units=[("varacall", ["RemoteDisconnect::<Future>::poll", "VaraStream::<AsyncRead>::poll_read", "VaraStream::<AsyncWrite>::poll_write", "VaraStream::<AsyncWrite>::poll_write_vectored", "VaraStream::<AsyncWrite>::poll_flush", "VaraStream::<AsyncWrite>::poll_shutdown", "VaraStream::<AsyncWrite>::is_write_vectored", "VaraStream::<PinnedDrop>::drop", "VaraTnc::pinned_data", "VaraTnc::connect", "VaraTnc::connect#0", "VaraTnc::connect#1", "ConnectionStateOwned::is_connected", "ConnectionStateOwned::is_disconnected"])], group="vara", secs=20, secs_thorough=400,
        theorems=["property_c18_stays_closed", "property_c18_one_use", "property_c18_drop", "VaraStream::<PinnedDrop>::drop", "VaraTnc::connect", "VaraTnc::connect#0", "VaraTnc::connect#1", "RemoteDisconnect::<Future>::poll"],
        note="The stream's five operations are proved, for every state and argument, to be those of the data socket until the remote end has gone and refused (end of stream for reads) from then on, never polling a finished signal again; the watching task to look at every change and to signal at the first disconnected one; drop to signal exactly once unless disconnected and the closing task to ask for exactly one disconnect then; connect to wire each stream to its own two tasks. Assumes contracts for the tokio channels (a oneshot delivers what is sent, once; a watch wakes for what is newer than what was seen), sockets and ports, the sequential reading of async code, that Pin::new and project only borrow, and Verus/Z3."),
    "C19": dict(units=[("varacall", ["VaraTnc::connect", "VaraTnc::send_command", "ConnectionStateOwned::is_connected", "ConnectionStateOwned::is_disconnected"])], group="vara", secs=20, secs_thorough=400,
        theorems=["property_c19_outcome", "VaraTnc::connect", "VaraTnc::send_command"],
        note="connect is proved, for every history of connection states and every reply, to succeed exactly when its own command was answered with OK and the first change noticed afterwards, published after the request was made, is a connection. Assumes contracts for the tokio channels (a oneshot delivers what is sent, once; a watch wakes for what is newer than what was seen), sockets and ports, the sequential reading of async code, that Pin::new and project only borrow, and Verus/Z3."),
    "C20": dict(units=[("varacall", ["VaraTncBuilder::build", "VaraTncBuilder::host", "VaraTncBuilder::control_port", "VaraTncBuilder::data_port", "VaraTnc::builder"])], group="vara", secs=12, secs_thorough=400,
        theorems=["property_c20_ports", "VaraTncBuilder::build", "VaraTnc::builder"],
        note="builder, its setters and build are proved to dial the control port and then the data port as set or one above it, for every host and every ports set in any order, to refuse 65535 without a data port before dialing, and to be free of overflow and panic; the session gets the control connection and the caller the data connection. Assumes contracts for the tokio channels (a oneshot delivers what is sent, once; a watch wakes for what is newer than what was seen), sockets and ports, the sequential reading of async code, that Pin::new and project only borrow, and Verus/Z3."),
}

NOT_APPLICABLE = {}
