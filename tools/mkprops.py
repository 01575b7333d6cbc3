#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[observe],"hook_needed":None}})

FR="imap-codec/src/fragmentizer.rs"; DEC="imap-codec/src/codec/decode.rs"; ENC="imap-codec/src/codec/encode.rs"
CORE="imap-codec/src/core.rs"; TCORE="imap-types/src/core.rs"; SEQ="imap-types/src/sequence.rs"

p("C01","The stream splitter frames every byte stream exactly as IMAP prescribes",
 "For every byte stream, the fragments reported by the stream splitter are, in order and without loss, overlap or invention, the lines (ending at a line feed, reported as LF or CRLF) and literals of the stream: a line announces a literal iff its text right before the line ending is '{' digits ['+'] '}' with a value that fits in 32 bits, and the next fragment is then exactly that many bytes. A message ends exactly at a line that announces nothing, offsets restart at 0 for each message, and the reported length, mode, offsets, line ending and bytes are those of the stream.",
 ["inputs","histories"],"all byte streams (any length, any nesting of lines and literals, any number of pipelined messages)",
 "Unit tests feed a handful of hand written messages; the rule is about every byte sequence, including malformed announcements, overflow values, stray CR/braces and literal data that looks like a line.",
 [FR],[("line automaton","LineParser::parse"),("literal counter","LiteralParser::parse"),("fragment dispatch","Fragmentizer::progress")],"fragment sequence returned by progress(), bytes returned by fragment_bytes()/message_bytes()")
p("C02","Splitting a stream does not depend on how its bytes arrive",
 "For every byte stream and every way of cutting it into chunks (including empty chunks, byte-by-byte delivery, cuts inside an announcement, inside CRLF or inside literal data) and every interleaving of supplying bytes and asking for progress, the sequence of reported fragments, message boundaries and message bytes is the same as when the stream is supplied at once. Asking for progress when not enough bytes are there reports nothing and loses nothing.",
 ["schedules","inputs"],"all streams x all chunkings x all interleavings of enqueue and progress",
 "The number of chunkings is exponential in the stream length; tests try a few.",
 [FR],[("incremental parser state","Parser/LineParser/LiteralParser fields kept across progress calls"),("queue","Fragmentizer::enqueue_bytes / dequeue_parsed_bytes")],"fragment sequence and message bytes under different schedules")
p("C03","The size limit bounds memory, is reported, and never breaks framing",
 "With a size limit of N, for every stream and chunking, the splitter never holds more than N bytes of a message; a message of at most N bytes is kept whole and not reported as too long, a longer one keeps exactly its first N bytes and is reported as too long as soon as byte N+1 of it was taken in, and trying to decode it yields the too-long error with that prefix and never a message. Fragment offsets, literal skipping and message boundaries are the same as without the limit, and the next message starts clean.",
 ["inputs","schedules","configurations"],"all limits x all streams x all chunkings",
 "Off-by-one at the limit, or state leaking into the next message, needs a specific alignment of limit, fragment and chunk boundaries.",
 [FR],[("bounded copy","Fragmentizer::dequeue_parsed_bytes"),("reset","Fragmentizer::progress (next message)"),("error","Fragmentizer::decode_message")],"message_bytes, is_max_message_size_exceeded, decode_message, fragments")
p("C04","Poisoning, skipping, whole-message decoding and tag recovery are exact",
 "At every point of every history: a poisoned message never decodes (the error says poisoned and carries the bytes, unless it is also too long) while its framing continues unchanged and the next message is not poisoned; skipping drops exactly what was taken in of the current message, keeps bytes not yet taken in, and restarts at a line. Decoding the current message succeeds exactly if the chosen decoder accepts all its bytes, a left-over is reported with the decoded message and the exact remaining bytes, and the recovered tag is exactly the bytes before the first space of the first line if they form a legal tag (otherwise none).",
 ["histories","inputs"],"all histories of enqueue/progress/poison/skip/decode operations",
 "The operations interact over a history (flags set at one message must vanish at the next); tests cover single operations on fixed streams.",
 [FR],[("flags","Fragmentizer::{poison_message,skip_message,progress}"),("decoding","Fragmentizer::decode_message"),("tag","parse_tag")],"results of decode_message/decode_tag/is_message_poisoned and following fragments")
p("C05","A prefix of a valid message asks for more data, and literals are announced",
 "For every message accepted by one of the five decoders and every strict prefix of it, decoding the prefix never fails and never yields a message: it reports that more data is needed. Exactly when the prefix of a command or response ends right after a literal announcement (the line end included) the decoder reports the literal instead, with the announced length and, for commands, the command's tag and the announced synchronising mode.",
 ["inputs","fault_sequences"],"all accepted messages x all cut positions",
 "A parser may take a wrong alternative at one particular cut position of one particular message; tests look at few positions.",
 [CORE,DEC,"imap-codec/src/command.rs","imap-codec/src/response.rs","imap-codec/src/extensions/binary.rs"],[("streaming parsers","all nom::*::streaming uses"),("literal stop","core::literal, extensions/binary::literal8"),("tag fill in","command::command")],"decode() result on every prefix")
p("C06","Decoding consumes exactly one message and later bytes do not matter",
 "Whenever a decoder accepts a message at the start of a buffer, it consumes exactly the bytes up to and including the line end of that message and returns the rest untouched, and the decoded value is the same whatever bytes follow. A buffer of several messages back to back therefore decodes into exactly those messages in order, and the same holds for the owned variant of decoding.",
 ["inputs","histories"],"all accepted messages x all following bytes (other messages, garbage, partial messages)",
 "Needs all continuations of all messages; tests decode messages in isolation.",
 [DEC,CORE],[("decode","Decoder::decode for the five codecs"),("terminator","crlf in every top level parser")],"decode() on message ++ suffix")
p("C07","Every message value survives encoding and decoding",
 "For every greeting, command, authentication line, response and idle-done value that the public API's checked constructors let one build, encoding it and decoding the bytes with the matching codec gives back an equal value with nothing left over. Exceptions are only: sequence sets may come back normalised (same messages denoted), and texts or free-form codes that by IMAP's syntax read as something else (a code-less text starting with '[', a continuation text that is valid base64, a free-form name spelled like a predefined one).",
 ["inputs"],"all constructible message values of the five kinds, including boundary numbers, empty and nested lists, all string representations",
 "The space of message values is unbounded and structured; the round trip must hold for each combination of optional parts.",
 [ENC,DEC],[("encode","EncodeIntoContext implementations"),("decode","Decoder implementations")],"encode().dump() then decode()")
p("C08","Re-encoding a received message is stable and canonical",
 "For every byte string a decoder accepts, encoding the decoded value yields the canonical form of that message (upper-case keywords, single spaces, minimal quoting escapes, literals kept as literals with their mode, normalised sequence sets, tolerated deviations removed), that form decodes again completely, and re-encoding it gives the same bytes and fragments.",
 ["inputs"],"all accepted inputs including case variants and tolerated deviations",
 "Tests compare fixed byte strings; canonicalisation has to be right for every spelling of every message.",
 [ENC,DEC],[("encode","EncodeIntoContext implementations"),("decode","Decoder implementations")],"encode(decode(x)), decode(encode(decode(x)))")
p("C09","Encoded fragments are exact: literals are announced with their true length",
 "For every message value, the fragments of its encoding concatenate to the dumped bytes, and each literal fragment carries its mode and is directly preceded by a line fragment ending in the announcement of exactly its length and mode ('{n}' or '{n+}', with '~' for binary literals) and CRLF; line fragments contain no literal data and the message ends in CRLF. The stream splitter, fed with these bytes, finds the same sequence of lines and literals as one message, provided no free text of the message itself ends in an announcement.",
 ["inputs"],"all message values, all literal positions, modes and lengths",
 "The announced length and the data are written at different sites; every message kind that can carry literals has to keep them in step.",
 [ENC,FR],[("fragment builder","EncodeContext::{push_line,push_literal,into_items}"),("literals","EncodeIntoContext for Literal/Literal8"),("iterator","Encoded::{next,dump}")],"iterating Encoded, dump(), Fragmentizer over the dump")
p("C10","Client-side messages: exactly the IMAP grammar, with the right meaning",
 "For every byte string, the command, authentication-data and idle-done decoders accept it exactly if it is a sentence of the IMAP grammar they implement (IMAP4rev1 plus the supported extensions and documented tolerances), and the value they return denotes what the bytes say: right command, arguments, numbers (no wrap-around or truncation, out-of-range rejected), flags, dates, literal bytes and modes, unescaped quoted strings, in order.",
 ["inputs"],"all byte strings, as sentences, mutated sentences and their neighbourhood",
 "A grammar of this size has unboundedly many sentences and near-sentences; known-answer tests pin down a few hundred.",
 ["imap-codec/src/command.rs","imap-codec/src/search.rs","imap-codec/src/fetch.rs","imap-codec/src/auth.rs","imap-codec/src/sequence.rs","imap-codec/src/datetime.rs",CORE,"imap-codec/src/extensions"],[("command grammar","command::command"),("auth data","auth::authenticate_data"),("idle","extensions/idle::idle_done")],"decode() verdict and value")
p("C11","Server-side messages: exactly the IMAP grammar, with the right meaning",
 "For every byte string, the greeting and response decoders accept it exactly if it is a sentence of the IMAP grammar they implement (IMAP4rev1 plus the supported extensions and documented tolerances), and the value they return denotes what the bytes say: right kind, code, text, data items, envelopes, body structures, numbers (out-of-range rejected), dates, flags, literal bytes, in order.",
 ["inputs"],"all byte strings, as sentences, mutated sentences and their neighbourhood",
 "A grammar of this size has unboundedly many sentences and near-sentences; known-answer tests pin down a few hundred.",
 ["imap-codec/src/response.rs","imap-codec/src/fetch.rs","imap-codec/src/body.rs","imap-codec/src/envelope.rs","imap-codec/src/mailbox.rs","imap-codec/src/status.rs",CORE,"imap-codec/src/extensions"],[("greeting","response::greeting"),("response","response::response"),("fetch data","fetch::msg_att"),("body structure","body::body")],"decode() verdict and value")
p("C12","Checked constructors accept exactly the legal values",
 "For every input, each checked constructor or conversion of the basic types (tags, atoms, extended atoms, quoted strings, quoted characters, literals, text, wildcard mailbox names, mailboxes, flags and other named tokens, header and section names, sequence numbers, sets and ranges, non-empty lists, dates and date-times, continuation requests) succeeds exactly if the value is legal for that IMAP token, and then holds exactly that value; otherwise it reports an error and constructs nothing.",
 ["inputs"],"all byte strings / character strings / numbers offered to the checked constructors",
 "Legality is a property of every byte at every position; tests sample a few characters.",
 [TCORE,"imap-types/src/mailbox.rs","imap-types/src/datetime.rs","imap-types/src/flag.rs",SEQ,"imap-types/src/response.rs","imap-types/src/utils.rs"],[("validators","validate() of each type"),("character classes","utils::indicators")],"TryFrom / FromStr / new results")
p("C13","Deserialisation cannot build illegal values, and serialisation is lossless",
 "For every message value, serialising it and deserialising the result gives back an equal value. For every serialised document, deserialising a basic type or a message out of it succeeds only if each of its parts would have been accepted by the checked constructor of that part, so no illegal tag, atom, string, literal, text, list, date or set can enter that way.",
 ["inputs"],"all message values; all documents with one leaf replaced by arbitrary other data",
 "Derived deserialisers bypass validation silently wherever the attribute is forgotten; each leaf of each type has to be attacked.",
 [TCORE,"imap-types/src/datetime.rs","imap-types/src/response.rs","imap-types/src/mailbox.rs","imap-types/src/extensions"],[("serde attributes","#[serde(try_from=...)] / remote derive on validated types")],"serde_json round trip and leaf mutation")
p("C14","Strings get the cheapest faithful representation; INBOX is recognised",
 "Converting plain text or bytes to an IMAP string type chooses the cheapest representation that can carry it (atom where allowed and possible, else quoted, else literal) and otherwise fails, and reading the chosen value back as bytes or text yields exactly the original content, whatever its bytes. A mailbox name that spells INBOX in any letter case and in any representation is recognised as the inbox, and no other name is.",
 ["inputs"],"all byte and character strings offered to the string, mailbox and list-mailbox conversions",
 "The choice depends on the set of characters present; each class boundary and position must be right.",
 [TCORE,"imap-types/src/mailbox.rs"],[("choice","TryFrom/From for AString, IString, NString, Mailbox, ListMailbox"),("content","AsRef<[u8]> / into_inner")],"variant chosen and content")
p("C15","Sequence sets denote the right messages",
 "For every sequence set and every value of '*' (the largest number), iterating the set yields exactly the numbers it denotes ('*' replaced by the largest, ranges in either direction) in ascending order without repetition, and naive iteration yields them in the order, direction and multiplicity of the set. Conversions from text, numbers and ranges keep the denotation and reject what denotes nothing or does not fit. Normalising a set keeps the denoted existing numbers for every largest number, and yields a sorted, disjoint, minimal set; encoding denotes the same set.",
 ["inputs"],"all sequence sets x all values of the largest number, including 1, 2^32-2 and 2^32-1",
 "Boundary interplay of overlap, adjacency, reversal, '*' and the largest number is combinatorial.",
 [SEQ,"imap-codec/src/sequence.rs",ENC],[("iteration","SequenceSet::iter, expand"),("normalisation","SequenceSet::normalize"),("conversions","TryFrom/From for SequenceSet, Sequence, SeqOrUid")],"iter(), normalize(), encode, conversions")
p("C16","Names are case-insensitive and known names are always recognised",
 "Every predefined name (capability, authentication mechanism, flag, attribute, status item, fetch item, sort and thread name, resource, compression, response code, command and status keyword, month) is recognised in any letter case, always yields the same predefined value, prints and encodes in its canonical spelling and round-trips; any other legal name is kept verbatim as a free-form name and never confused with a predefined one.",
 ["inputs"],"all predefined names x all letter cases; all other names",
 "Per-name tables are maintained by hand in several places (parse, display, encode); tests check a few names.",
 ["imap-types/src/response.rs","imap-types/src/auth.rs","imap-types/src/flag.rs","imap-types/src/extensions","imap-codec/src/fetch.rs","imap-codec/src/status.rs"],[("name tables","From<Atom>/TryFrom<&str>/Display of each *Other-carrying enum"),("keyword parsers","tag_no_case")],"conversions, Display, decode, encode")
p("C17","Credentials never appear in debug output",
 "In builds without debug assertions, the debug rendering of any value that carries secrets (login passwords, authentication initial responses and data lines, any value in the secret wrapper, buffered bytes in decoding errors, and every container of those such as commands) is the same whatever the secret is, apart from whether an optional secret is present. Comparing and cloning secrets behaves like comparing and cloning the content, and the content is unchanged by wrapping.",
 ["inputs"],"all pairs of secrets x all places a secret can be",
 "Non-interference compares two executions and must hold for all secrets; one derive on one container breaks it.",
 ["imap-types/src/secret.rs","imap-types/src/auth.rs","imap-types/src/command.rs",FR],[("redaction","Debug for Secret, Debug for AuthenticateData"),("uses","CommandBody::{Login,Authenticate}, DecodeMessageError")],"format!(\"{:?}\") and {:#?}")
p("C18","No input crashes the decoders or exhausts the stack",
 "For every byte string, every decoder returns a verdict without panicking, hanging or exhausting the stack, and nested constructs (search keys, body structures including embedded messages, body extensions, threads) are accepted up to a fixed small depth and rejected beyond it, however deep the input goes. Encoding and displaying any decoded value does not panic either.",
 ["inputs","fault_sequences"],"all byte strings, in particular deeply nested and huge-number inputs",
 "Adversarial inputs are unbounded; a single recursion without budget or an unwrap on an unusual input is enough.",
 ["imap-codec/src/body.rs","imap-codec/src/search.rs","imap-codec/src/extensions/thread.rs",CORE],[("recursion budgets","*_limited parsers"),("unwraps","core parsers")],"process survival, verdict per depth")
p("C19","Generated tags are legal and never repeat",
 "Tags produced by any number of generators, on any threads and in any interleaving, are legal tags and pairwise distinct within a process.",
 ["schedules","histories"],"all interleavings of creating generators and drawing tags on several threads",
 "Uniqueness across generators and threads depends on the interleaving of a shared counter.",
 ["imap-types/src/core.rs"],[("shared counter","TagGenerator::new"),("per generator counter","TagGenerator::generate")],"set of tags drawn")
p("C20","Owned copies equal the borrowed originals",
 "For every decoded or built message, basic value or decoding error, its owned (static) version equals the original, encodes to the same bytes and fragments and prints the same, and the owned variant of decoding gives the same result and remainder as the borrowing one.",
 ["inputs"],"all messages of the five kinds and all basic values",
 "Hand written conversions exist per type; each variant and field has to be carried over.",
 [DEC,"imap-types/src/secret.rs","imap-types/src/core.rs"],[("static conversion","IntoStatic/ToStatic implementations"),("owned decode","Decoder::decode_static")],"equality of both versions")
p("C21","A client and server exchanging literals never desynchronise or deadlock",
 "For every message with literals and every way the network cuts and delays the bytes, a client that sends the encoded fragments and waits for a go-ahead before each synchronising literal, and a server that splits the stream, gives one go-ahead per synchronising announcement and decodes complete messages, terminate with the server holding exactly the client's messages in order. If the server rejects a literal by skipping (synchronising, not sent) or poisoning (non-synchronising, still sent) the message, the following messages are still received intact and no literal byte is ever taken for a command.",
 ["schedules","histories","inputs"],"all interleavings of client, network and server steps, all mixes of literal modes, all accept/reject decisions",
 "A protocol composition property over interleavings; tests exercise the parts in isolation.",
 [FR,ENC,DEC],[("client side fragments","Encoded iterator"),("server side framing","Fragmentizer::{progress,skip_message,poison_message,decode_message}"),("announcement","FragmentInfo::Line.announcement, CommandDecodeError::LiteralFound")],"messages decoded by the server, go-aheads given")
p("C22","Text helpers and expansions are exact",
 "For every string, escaping for quoted strings and unescaping are inverse and escape exactly quote and backslash; the byte-string debug helper renders each byte unambiguously. Fetch macros expand to exactly the items IMAP defines, each command reports its own IMAP name, and builders of commands and responses put every argument where it belongs.",
 ["inputs"],"all strings / bytes; all macros, commands and builders",
 "Helpers are total functions on all strings; tables must be right for every row.",
 ["imap-types/src/utils.rs","imap-types/src/fetch.rs","imap-types/src/command.rs","imap-types/src/response.rs"],[("escaping","utils::{escape_quoted,unescape_quoted,escape_byte_string}"),("macros","Macro::expand"),("names","CommandBody::name")],"return values")
p("C23","Decoders refuse hopeless input at once instead of waiting for more",
 "For every byte string that no message can start with, each of the five decoders reports failure as soon as the byte that cannot follow what precedes it is there (inside a single token such as a number, date, base64 run or quoted string the verdict may come with the byte that ends the token). In particular it never asks for more data, and never reports a literal, on a complete line that is not a message, whatever bytes follow it. So a peer cannot make the other side wait for ever with a malformed line.",
 ["inputs","fault_sequences"],"all byte strings, in particular damaged messages, messages with a part missing, repeated or exchanged, and lines ended early",
 "Whether a parser waits depends on which alternative or look-ahead hits the end of the input; each place of the grammar and each kind of damage is a separate case.",
 [CORE,DEC,"imap-codec/src/command.rs","imap-codec/src/response.rs","imap-codec/src/auth.rs","imap-codec/src/fetch.rs"],[("streaming parsers","all nom::*::streaming uses"),("verdict mapping","Decoder::decode for the five codecs")],"decode() verdict (Failed or Incomplete) on damaged input")
p("C24","Build options change exactly what they document",
 "In the builds without quirks, with all quirks (lenient line ends and empty ID list included), and without extensions, each decoder accepts exactly the messages of that build's grammar, with exactly their value and length, and the encoder writes that build's canonical form, which decodes to the same value. What the build without quirks accepts is accepted by the quirk build with the same length and meaning: quirks only add the documented leniencies (missing text, trailing or excessive spaces in status, capability, ID, search, quota and address lists, negative numbers in body structures, empty continuation requests, bare line feeds) or the documented normalisations when encoding. Extensions that are not built in are not recognised, and leave all other messages unchanged.",
 ["inputs","configurations"],"all byte strings and all message values, in the builds without quirks, with all quirks, and without extensions",
 "The unit tests run in one feature combination; code behind a disabled option is never executed there.",
 [CORE,"imap-codec/src/response.rs","imap-codec/src/mailbox.rs","imap-codec/src/status.rs","imap-codec/src/envelope.rs","imap-codec/src/body.rs","imap-codec/src/extensions",ENC],[("quirks","cfg(feature = \"quirk_*\") in imap-codec"),("extensions","cfg(feature = \"ext_*\"), cfg(feature = \"starttls\") in both crates")],"decode() verdict and value, encode() in three further builds")
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
