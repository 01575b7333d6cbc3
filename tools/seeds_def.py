SEEDS = []
def seed(id, property, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))
FR = "imap-codec/src/fragmentizer.rs"
PRE_F = "use imap_codec::{fragmentizer::*, decode::*, encode::*, *};\n"

seed("c01-cr-cr", "C01", [(FR, """                LatestByte::Cr { announcement } => match next_byte {
                    b'\\r' => LatestByte::Cr { announcement: None },""", """                LatestByte::Cr { announcement } => match next_byte {
                    b'\\r' => LatestByte::Cr { announcement },""")], PRE_F + r'''
fn main() {
    // `{3}` is not directly in front of the line break, so no literal is announced.
    let mut f = Fragmentizer::without_max_message_size();
    f.enqueue_bytes(b"A {3}\r\r\nB NOOP\r\n");
    let mut n = 0;
    while let Some(_) = f.progress() { if f.is_message_complete() { n += 1; } }
    assert_eq!(n, 2);
}''', "a line ending in '{n}' followed by two CRs and a LF", "a line with a stray CR between '{n}' and CRLF is taken as a literal announcement, so following commands are swallowed as literal data")

seed("c03-skip-limit", "C03", [(FR, """    pub fn skip_message(&mut self) {
        self.max_message_size_exceeded = false;
        self.message_poisoned = false;""", """    pub fn skip_message(&mut self) {
        self.message_poisoned = false;""")], PRE_F + r'''
fn main() {
    let mut f = Fragmentizer::new(10);
    f.enqueue_bytes(b"A LOGIN {100}\r\n");
    f.progress().unwrap();
    assert!(f.is_max_message_size_exceeded());
    f.skip_message();
    f.enqueue_bytes(b"B NOOP\r\n");
    f.progress().unwrap();
    assert!(!f.is_max_message_size_exceeded());
    assert!(f.decode_message(&CommandCodec::default()).is_ok());
}''', "a message exceeds the limit, is skipped, and a small message follows", "the limit flag of a skipped message leaks into the next one, which is then reported as too long")

seed("c04-ws-remainder", "C04", [(FR, "if !remainder.is_empty() {", "if !remainder.trim_ascii().is_empty() {")], PRE_F + r'''
fn main() {
    let mut f = Fragmentizer::without_max_message_size();
    f.enqueue_bytes(b"* OK hi {2}\r\n\t \r\n");
    while !f.is_message_complete() { f.progress().unwrap(); }
    match f.decode_message(&ResponseCodec::default()) {
        Err(DecodeMessageError::DecodingRemainder { remainder, .. }) => assert_eq!(*remainder.declassify(), b"\t \r\n".as_ref()),
        other => panic!("{other:?}"),
    }
}''', "a message whose undecoded remainder consists of white space only (e.g. literal data after a text line)", "decode_message reports success although the decoder did not consume the whole message")

seed("c05-literal8-found", "C05", [("imap-codec/src/extensions/binary.rs", "    if remaining.is_empty() {\n", "    if remaining.is_empty() && mode == LiteralMode::Sync {\n")], PRE_F + r'''
fn main() {
    match CommandCodec::default().decode(b"A APPEND x ~{3+}\r\n") {
        Err(CommandDecodeError::LiteralFound { length: 3, .. }) => {}
        other => panic!("{other:?}"),
    }
}''', "a command ending right after a non-synchronising literal8 announcement", "the decoder says Incomplete instead of announcing the literal (tag, length, mode)")

seed("c06-idle-blank", "C06", [("imap-codec/src/extensions/idle.rs", "value(IdleDone, tuple((tag_no_case(\"DONE\"), crlf)))", "value(\n        IdleDone,\n        tuple((tag_no_case(\"DONE\"), crlf, |i| nom::combinator::opt(nom::combinator::complete(crlf))(i))),\n    )")], PRE_F + r'''
fn main() {
    let (rem, _) = IdleDoneCodec::default().decode(b"DONE\r\n\r\nA NOOP\r\n").unwrap();
    assert_eq!(rem, b"\r\nA NOOP\r\n");
}''', "an IDLE DONE directly followed by an empty line", "decoding consumes bytes after the message's CRLF")

seed("c07-lang-single", "C07", [("imap-codec/src/codec/encode.rs", """            BodyExtension::List(list) => {
                ctx.write_all(b"(")?;
                join_serializable(list.as_ref(), b" ", ctx)?;
                ctx.write_all(b")")
            }""", """            BodyExtension::List(list) => match list.as_ref() {
                [single @ BodyExtension::List(_)] => single.encode_ctx(ctx),
                list => {
                    ctx.write_all(b"(")?;
                    join_serializable(list, b" ", ctx)?;
                    ctx.write_all(b")")
                }
            },""")], PRE_F + r'''
fn main() {
    let m = b"* 1 FETCH (BODYSTRUCTURE (\"a\" \"b\" NIL NIL NIL \"7bit\" 1 NIL NIL NIL NIL ((1))))\r\n";
    let (_, a) = ResponseCodec::default().decode(m).unwrap();
    let out = ResponseCodec::default().encode(&a).dump();
    let (_, b) = ResponseCodec::default().decode(&out).unwrap();
    assert_eq!(a, b);
}''', "a body extension list whose only element is again a list", "nested single-element body extension lists are flattened by encoding")

seed("c09-len-chars", "C09", [("imap-codec/src/codec/encode.rs", "LiteralMode::NonSync => write!(ctx, \"{{{}+}}\\r\\n\", self.as_ref().len())?,\n        }\n\n        ctx.push_line();\n        ctx.write_all(self.as_ref())?;", "LiteralMode::NonSync => write!(\n                ctx,\n                \"{{{}+}}\\r\\n\",\n                String::from_utf8_lossy(self.as_ref()).chars().count()\n            )?,\n        }\n\n        ctx.push_line();\n        ctx.write_all(self.as_ref())?;")], PRE_F + r'''
use imap_codec::imap_types::{command::*, core::*};
fn main() {
    let lit = Literal::try_from("\u{e4}\u{f6}").unwrap().into_non_sync();
    let cmd = Command::new("A", CommandBody::login(lit, "x").unwrap()).unwrap();
    let mut it = CommandCodec::default().encode(&cmd);
    assert_eq!(it.next(), Some(Fragment::Line { data: b"A LOGIN {4+}\r\n".to_vec() }));
}''', "a non-synchronising literal with bytes outside ASCII", "the announced literal length counts characters instead of bytes")

seed("c10-until", "C10", [("imap-codec/src/datetime.rs", "let offset = 3600 * (hh as i32) + 60 * (mm as i32);", "let offset = 3600 * (hh as i32) + 60 * (mm.min(59) as i32);")], PRE_F + r'''
fn main() {
    let m = b"A APPEND x \" 1-Jan-2020 00:00:00 +0160\" {1+}\r\nX\r\n";
    let m2 = b"A APPEND x \" 1-Jan-2020 00:00:00 +0200\" {1+}\r\nX\r\n";
    let a = CommandCodec::default().decode(m).map(|x| x.1);
    let b = CommandCodec::default().decode(m2).map(|x| x.1);
    assert_eq!(a, b);
}''', "a zone with more than 59 minutes", "an APPEND date with such a zone gets another instant")

seed("c12-year", "C12", [("imap-types/src/datetime.rs", "        if !(0..=9999).contains(&value.year()) {\n            return Err(NaiveDateError", "        if value.year() > 9999 {\n            return Err(NaiveDateError")], r'''
use imap_types::datetime::NaiveDate;
fn main() {
    assert!(NaiveDate::try_from(chrono::NaiveDate::from_ymd_opt(-1, 1, 1).unwrap()).is_err());
}''', "a date with a negative year", "NaiveDate accepts years IMAP cannot express")


seed("c11-quota-u32", "C11", [("imap-codec/src/extensions/quota.rs", "core::{astring, atom, number64},", "core::{astring, atom, number, number64},"), ("imap-codec/src/extensions/quota.rs", "let mut parser = tuple((resource_name, many1(sp), number64, many1(sp), number64));", "let mut parser = tuple((\n        resource_name,\n        many1(sp),\n        nom::combinator::map(number, u64::from),\n        many1(sp),\n        number64,\n    ));")], PRE_F + r"""
fn main() {
    let m = b"* QUOTA \"\" (STORAGE 5000000000 6000000000)\r\n";
    assert!(ResponseCodec::default().decode(m).is_ok());
}""", "a quota usage of 2^32 or more", "legal QUOTA responses with a large usage are rejected")

seed("c16-resource", "C16", [("imap-types/src/extensions/quota.rs", "match atom.inner().to_ascii_uppercase().as_ref() {", "match atom.inner().trim_start_matches('-').to_uppercase().as_ref() {")], r"""
use imap_types::extensions::quota::Resource;
fn main() {
    assert_ne!(Resource::try_from("-STORAGE").unwrap(), Resource::Storage);
}""", "a resource name with a leading hyphen", "an unknown resource is taken for a known one")

seed("c17-alt", "C17", [("imap-types/src/secret.rs", """        #[cfg(not(debug_assertions))]
        return write!(f, "/* REDACTED */");""", """        #[cfg(not(debug_assertions))]
        return match f.alternate() {
            true => f.debug_tuple("Secret").field(&self.0).finish(),
            false => write!(f, "/* REDACTED */"),
        };""")], PRE_F + r"""
use imap_codec::imap_types::command::CommandBody;
fn main() {
    let c = CommandBody::login("alice", "topsecret").unwrap().tag("A").unwrap();
    assert!(!format!("{c:?}").contains("topsecret"));
    assert!(!format!("{c:#?}").contains("topsecret"));
}""", "pretty debug formatting ({:#?}) in a build without debug assertions", "credentials appear in pretty-printed debug output")

seed("c18-ext-rec", "C18", [("imap-codec/src/body.rs", "|input| body_extension_limited(input, remaining_recursion.saturating_sub(1));", "|input| body_extension_limited(input, remaining_recursion);")], PRE_F + r"""
fn main() {
    let n = 200_000;
    let mut m = b"* 1 FETCH (BODYSTRUCTURE (\"a\" \"b\" NIL NIL NIL \"7bit\" 1 NIL NIL NIL NIL ".to_vec();
    m.extend(std::iter::repeat(b'(').take(n));
    let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || ResponseCodec::default().decode(&m).is_err()).unwrap();
    assert!(h.join().unwrap());
}""", "a body extension nested very deeply", "unbounded recursion: the decoder overflows the stack")

seed("c19-width", "C19", [("imap-types/src/core.rs", "self.counter = self.counter.wrapping_add(1);", "self.counter = self.counter.wrapping_add(1) % 10_000;")], r"""
use imap_types::core::TagGenerator;
fn main() {
    let mut g = TagGenerator::new();
    let mut seen = std::collections::HashSet::new();
    for _ in 0..20_000 { assert!(seen.insert(g.generate().as_ref().to_string())); }
}""", "more than 10000 tags from one generator", "tags repeat after 10000 commands", dbg=True)

seed("c20-derr", "C20", [("imap-codec/src/codec/decode.rs", """            CommandDecodeError::LiteralFound { tag, length, mode } => {
                CommandDecodeError::LiteralFound {
                    tag: tag.into_static(),
                    length,
                    mode,
                }
            }""", """            CommandDecodeError::LiteralFound { length: 0, .. } => CommandDecodeError::Incomplete,
            CommandDecodeError::LiteralFound { tag, length, mode } => {
                CommandDecodeError::LiteralFound {
                    tag: tag.into_static(),
                    length,
                    mode,
                }
            }""")], PRE_F + r"""
use imap_codec::imap_types::IntoStatic;
fn main() {
    let c = CommandCodec::default();
    let a = c.decode(b"A LOGIN {0}\r\n").unwrap_err();
    assert_eq!(a.clone(), a.into_static());
}""", "an announced literal of length zero, decoded with decode_static", "the owned copy of the LiteralFound error loses the announcement")

seed("c02-ring-wrap", "C02", [(FR, "for &next_byte in unprocessed_bytes {", "for &next_byte in unprocessed_bytes.as_slices().0 {")], PRE_F + r"""
fn main() {
    // More data arrives while a second message is still queued.
    let mut f = Fragmentizer::without_max_message_size();
    f.enqueue_bytes(b"A NOOP\r\nB NOOP\r\n");
    for i in 0..50 {
        assert!(f.progress().is_some() && f.is_message_complete());
        f.enqueue_bytes(format!("C NOOP{}\r\n", "x".repeat(i % 5)).as_bytes());
    }
}""", "bytes are enqueued while earlier ones are still queued, so that the internal ring buffer wraps around in the middle of a line", "progress() asks for more bytes although a complete line is already buffered, depending on how the bytes arrived")

seed("c08-origin0", "C08", [("imap-codec/src/codec/encode.rs", "                if let Some(origin) = origin {\n", "                if let Some(origin @ 1..) = origin {\n")], PRE_F + r"""
fn main() {
    let m = b"* 1 FETCH (BODY[]<0> \"x\")\r\n";
    let (_, a) = ResponseCodec::default().decode(m).unwrap();
    let out = ResponseCodec::default().encode(&a).dump();
    assert_eq!(out, m);
}""", "a partial body fetch starting at octet 0", "re-encoding drops the origin, so the message means something else", nth={"imap-codec/src/codec/encode.rs": 0})

seed("c13-nul-rectify", "C13", [("imap-types/src/core.rs", "    let data = Vec::deserialize(deserializer)?;\n", "    let mut data = Vec::deserialize(deserializer)?;\n    // Tolerate C strings.\n    if data.len() > 1 && data.ends_with(b\"\\0\") {\n        data.pop();\n    }\n")], r"""
use imap_types::core::Literal;
fn main() {
    let j = serde_json::to_string(&Literal::try_from("ab").unwrap()).unwrap();
    assert!(serde_json::from_str::<Literal>(&j.replace("98", "98,0")).is_err());
}""", "deserialising literal data that ends with NUL", "illegal literal data is silently altered instead of being rejected")

seed("c14-vec-atom", "C14", [("imap-types/src/core.rs", "        if let Ok(atom) = AtomExt::try_from(value.clone()) {\n            return Ok(AString::Atom(atom));", "        if let Ok(atom) = Atom::try_from(value.clone()) {\n            return Ok(AString::from(atom));")], r"""
use imap_types::core::AString;
fn main() {
    let a = AString::try_from(b"a]".to_vec()).unwrap();
    assert_eq!(a, AString::try_from("a]").unwrap());
    assert!(matches!(a, AString::Atom(_)));
}""", "a string containing ']' converted from a Vec<u8>", "a string that fits an atom is sent quoted, and the representation depends on the source type", nth={"imap-types/src/core.rs": 0})

seed("c15-max-merge", "C15", [("imap-types/src/sequence.rs", "if last.0 <= x && x <= last.1.saturating_add(1) {", "if last.0 <= x && x <= last.1.wrapping_add(1) {")], r"""
use imap_types::sequence::SequenceSet;
use std::num::NonZeroU32;
fn main() {
    let s = SequenceSet::try_from("4294967294:4294967295,4294967295").unwrap();
    let v: Vec<u32> = s.iter(NonZeroU32::MAX).map(u32::from).collect();
    assert_eq!(v, vec![4294967294, 4294967295]);
}""", "overlapping ranges that end at the largest possible number", "iterating the set yields a message twice")

# ---- second round ----
seed("c21-lit8-wait", "C21", [("imap-codec/src/extensions/binary.rs", "        ctx.push_literal(self.mode);\n", "        ctx.push_literal(LiteralMode::Sync);\n")], PRE_F + r'''
use imap_codec::imap_types::core::LiteralMode;
fn main() {
    // The server sees `~{3+}` and gives no go-ahead; a client that waits for one waits forever.
    let (_, m) = CommandCodec::default().decode(b"A APPEND x ~{3+}\r\nabc\r\n").unwrap();
    for f in CommandCodec::default().encode(&m) {
        if let Fragment::Literal { mode, .. } = f { assert_eq!(mode, LiteralMode::NonSync); }
    }
}''', "an APPEND or SETMETADATA with a non-synchronising literal8", "the client is told to wait for a go-ahead that the server never gives: deadlock")

seed("c22-lsub", "C22", [("imap-types/src/command.rs", "        Ok(CommandBody::Lsub {\n            reference: reference", "        Ok(CommandBody::List {\n            reference: reference")], r'''
use imap_types::command::CommandBody;
fn main() { assert_eq!(CommandBody::lsub("", "*").unwrap().name(), "LSUB"); }
''', "building an LSUB command with its builder", "the LSUB builder builds a LIST command")

seed("c01-zero-literal", "C01", [(FR, "        if unprocessed_bytes.len() < self.remaining as usize {\n", "        if unprocessed_bytes.is_empty() || unprocessed_bytes.len() < self.remaining as usize {\n")], PRE_F + r'''
fn main() {
    let mut f = Fragmentizer::without_max_message_size();
    f.enqueue_bytes(b"A LOGIN {0}\r\n");
    assert!(f.progress().is_some());
    // The empty literal is there already.
    assert_eq!(f.progress(), Some(FragmentInfo::Literal { start: 13, end: 13 }));
}''', "an empty literal with nothing behind it yet", "an empty literal is withheld until more bytes arrive")

seed("c04-skip-poison", "C04", [(FR, """        self.max_message_size_exceeded = false;
        self.message_poisoned = false;
        self.message_buffer.clear();
        self.parser = Some(""", """        self.max_message_size_exceeded = false;
        self.message_buffer.clear();
        self.parser = Some(""")], PRE_F + r'''
fn main() {
    let mut f = Fragmentizer::without_max_message_size();
    f.enqueue_bytes(b"A LOGIN {3+}\r\nabc {5}\r\n");
    f.progress().unwrap();
    f.poison_message();
    f.progress().unwrap();
    f.progress().unwrap();
    f.skip_message();
    f.enqueue_bytes(b"B NOOP\r\n");
    f.progress().unwrap();
    assert!(f.decode_message(&CommandCodec::default()).is_ok());
}''', "a message that is first poisoned and then skipped", "the message after the skipped one is still poisoned")

seed("c05-zone-complete", "C05", [("imap-codec/src/datetime.rs", "    let mut parser = tuple((alt((char('+'), char('-'))), digit_2, digit_2));", "    let mut parser = tuple((nom::character::complete::one_of(\"+-\"), digit_2, digit_2));")], PRE_F + r'''
fn main() {
    match CommandCodec::default().decode(b"A APPEND x \"17-Jul-1996 02:44:25 ") {
        Err(CommandDecodeError::Incomplete) => {}
        other => panic!("{other:?}"),
    }
}''', "input that ends right before the sign of a time zone", "a valid prefix is rejected instead of asking for more data")

seed("c10-modseq-zero", "C10", [("imap-codec/src/extensions/condstore_qresync.rs", "tuple((opt(search_modseq_ext), preceded(sp, mod_sequence_valzer))),", "tuple((\n            opt(search_modseq_ext),\n            preceded(sp, nom::combinator::verify(mod_sequence_valzer, |v| *v != 0)),\n        )),")], PRE_F + r'''
fn main() {
    assert!(CommandCodec::default().decode(b"A SEARCH MODSEQ 0\r\n").is_ok());
}''', "SEARCH MODSEQ with the legal value 0", "a valid command is rejected")

seed("c16-earlier", "C16", [("imap-codec/src/response.rs", "opt(tag_no_case(\" (EARLIER)\")),", "opt(tag(\" (EARLIER)\")),")], PRE_F + r'''
fn main() { assert!(ResponseCodec::default().decode(b"* VANISHED (Earlier) 1:3\r\n").is_ok()); }
''', "VANISHED (EARLIER) in another letter case", "a keyword is only recognised in upper case")

seed("c18-not-deep", "C18", [("imap-codec/src/search.rs", "    let search_key = |input| search_key_limited(input, remaining_recursion.saturating_sub(1));\n", "    let search_key = |input| search_key_limited(input, remaining_recursion.saturating_sub(1));\n    let search_key_not = |input| search_key_limited(input, remaining_recursion);\n"), ("imap-codec/src/search.rs", "tuple((tag_no_case(b\"NOT\"), sp, search_key)),", "tuple((tag_no_case(b\"NOT\"), sp, search_key_not)),")], PRE_F + r'''
fn main() {
    let s = format!("A SEARCH {}SEEN\r\n", "NOT ".repeat(100));
    assert!(CommandCodec::default().decode(s.as_bytes()).is_err());
}''', "a long chain of NOT in a search", "negations are followed without a depth limit: stack exhaustion")

seed("c19-race", "C19", [("imap-types/src/core.rs", "let global = GLOBAL_TAG_GENERATOR_COUNT.fetch_add(1, Ordering::Relaxed);", "let global = GLOBAL_TAG_GENERATOR_COUNT.load(Ordering::Relaxed);\n        GLOBAL_TAG_GENERATOR_COUNT.store(global + 1, Ordering::Relaxed);")], r'''
use imap_types::core::TagGenerator;
use std::{collections::HashSet, sync::{Arc, Barrier}};
fn main() {
    let mut seen = HashSet::new();
    for _ in 0..20000 {
        let b = Arc::new(Barrier::new(4));
        let hs: Vec<_> = (0..4).map(|_| { let b = b.clone(); std::thread::spawn(move || { b.wait(); TagGenerator::new().generate() }) }).collect();
        for h in hs { let t = h.join().unwrap(); let t = t.as_ref().to_string();
            let p: String = t.split('.').take(2).collect::<Vec<_>>().join(".");
            assert!(seen.insert(p), "prefix twice"); }
    }
}
''', "two generators created at the same moment on different threads", "both generators share the prefix, so tags repeat (in builds without the random part)", dbg=True)

seed("c11-thread-one", "C11", [("imap-codec/src/extensions/thread.rs", "map(many_m_n(2, usize::MAX, thread_list), |vec| Thread::Nested {\n                answers: Vec2::unvalidated(vec),", "map(many_m_n(1, usize::MAX, thread_list), |vec| Thread::Nested {\n                answers: Vec2::unvalidated(vec),")], PRE_F + r'''
fn main() { assert!(ResponseCodec::default().decode(b"* THREAD ((1))\r\n").is_err()); }
''', "a THREAD response with a nested thread of a single member", "an invalid response is accepted and yields a list of two or more with one element")

seed("c24-search-empty", "C24", [("imap-codec/src/mailbox.rs", """                tag_no_case(b"SEARCH"),
                many0(preceded(sp, nz_number)),
                opt(preceded(char(' '), search_sort_mod_seq)),
            )),
            #[cfg(feature = "quirk""", """                tag_no_case(b"SEARCH"),
                nom::multi::many1(preceded(sp, nz_number)),
                opt(preceded(char(' '), search_sort_mod_seq)),
            )),
            #[cfg(feature = "quirk""")], PRE_F + r'''
fn main() { assert!(ResponseCodec::default().decode(b"* SEARCH\r\n").is_ok()); }
''', "the build with extensions and without quirks, an empty SEARCH result", "the build without quirks rejects a valid response", defaults="false")

seed("c24-id-empty", "C24", [("imap-codec/src/extensions/id.rs", """                tag("("),
                separated_list0(sp, separated_pair(string, sp, nstring)),
                tag(")"),""", """                tag("("),
                nom::multi::separated_list1(sp, separated_pair(string, sp, nstring)),
                tag(")"),""")], PRE_F + r'''
fn main() { assert!(CommandCodec::default().decode(b"A ID ()\r\n").is_ok()); }
''', "the build without quirks, ID with an empty list", "the build without quirks rejects a valid command", defaults="false")


seed("c23-code-line", "C23", [("imap-codec/src/response.rs", "take_while(|b: u8| b != b']' && b != b'\\r' && b != b'\\n'),", "take_while(|b: u8| b != b']'),")], PRE_F + r'''
fn main() {
    match ResponseCodec::default().decode(b"* OK [broken code\r\n") {
        Err(ResponseDecodeError::Failed) => {}
        other => panic!("{other:?}"),
    }
}''', "a response code whose closing bracket is missing", "the decoder waits for more data across the end of the line")


seed("c02-cr-keep", "C02", [(FR, """        }

        (parsed_byte_count, parsed_line)
    }
}

/// The latest byte""", """        }

        // Leave a CR in the queue until its LF is there
        if parsed_byte_count > 1 && matches!(self.latest_byte, LatestByte::Cr { .. }) {
            parsed_byte_count -= 1;
            self.end -= 1;
        }

        (parsed_byte_count, parsed_line)
    }
}

/// The latest byte""")], PRE_F + r'''
fn main() {
    let mut f = Fragmentizer::without_max_message_size();
    f.enqueue_bytes(b"A LOGIN {5}\r");
    assert_eq!(f.progress(), None);
    f.enqueue_bytes(b"\n");
    assert!(matches!(f.progress(), Some(FragmentInfo::Line { announcement: Some(_), .. })));
}''', "a chunk of two or more bytes that ends right between CR and LF of a line announcing a literal", "the announcement is forgotten, so the literal is taken for a command")


seed("c09-empty-literal", "C09", [("imap-codec/src/codec/encode.rs", """        ctx.push_line();
        ctx.write_all(self.as_ref())?;
        ctx.push_literal(self.mode());

        Ok(())
    }
}

impl EncodeIntoContext for Quoted""", """        ctx.push_line();
        if !self.as_ref().is_empty() {
            ctx.write_all(self.as_ref())?;
            ctx.push_literal(self.mode());
        }

        Ok(())
    }
}

impl EncodeIntoContext for Quoted""")], PRE_F + r'''
fn main() {
    let (_, m) = CommandCodec::default().decode(b"A LOGIN {0}\r\n x\r\n").unwrap();
    assert_eq!(CommandCodec::default().encode(&m).count(), 3);
}''', "an empty literal", "an announcement is followed by a line instead of a literal fragment")

seed("c07-delim-backslash", "C07", [("imap-codec/src/codec/encode.rs", """            '\\\\' => ctx.write_all(b"\\\\\\\\"),
            '"' => ctx""", """            '\\\\' => ctx.write_all(b"\\\\"),
            '"' => ctx""")], PRE_F + r'''
fn main() {
    let (_, m) = ResponseCodec::default().decode(b"* LIST () \"\\\\\" x\r\n").unwrap();
    let e = ResponseCodec::default().encode(&m).dump();
    assert_eq!(ResponseCodec::default().decode(&e).unwrap().1, m);
}''', "a hierarchy delimiter that is a backslash", "the backslash is not escaped, so the response cannot be decoded")

seed("c20-tz", "C20", [("imap-types/src/datetime.rs", """impl ToBoundedStatic for DateTime {
    type Static = Self;

    fn to_static(&self) -> Self::Static {
        self.clone()
    }""", """impl ToBoundedStatic for DateTime {
    type Static = Self;

    fn to_static(&self) -> Self::Static {
        Self(self.0.to_utc().fixed_offset())
    }""")], PRE_F + r'''
use imap_codec::imap_types::ToStatic;
fn main() {
    let (_, m) = CommandCodec::default().decode(b"A APPEND x \"17-Jul-1996 02:44:25 -0700\" {1}\r\na\r\n").unwrap();
    let s = m.to_static();
    assert_eq!(CommandCodec::default().encode(&m).dump(), CommandCodec::default().encode(&s).dump());
}''', "a date-time with a zone other than UTC, turned into its owned version", "the owned version is the same instant but another date-time, and is encoded differently")

seed("c05-literal-minus", "C05", [("imap-codec/src/core.rs", "                length,\n                mode,\n            },\n        }));\n    }\n\n    let (remaining, data)", "                length,\n                // LITERAL-: larger literals are always synchronizing\n                mode: if length > 4096 { LiteralMode::Sync } else { mode },\n            },\n        }));\n    }\n\n    let (remaining, data)")], PRE_F + r'''
use imap_codec::imap_types::core::LiteralMode;
fn main() {
    match CommandCodec::default().decode(b"A LOGIN {5000+}\r\n") {
        Err(CommandDecodeError::LiteralFound { mode: LiteralMode::NonSync, length: 5000, .. }) => {}
        other => panic!("{other:?}"),
    }
}''', "the announcement of a non-synchronising literal of more than 4096 bytes", "it is reported as synchronising, so the server skips a message whose literal is sent all the same")

seed("c12-continue-code", "C12", [("imap-types/src/response.rs", "        if code.is_none() && _base64.decode(text.inner()).is_ok() {", "        if code.is_none()\n            && text.inner().len() > 4\n            && _base64.decode(text.inner()).is_ok()\n        {")], r'''
use imap_types::response::CommandContinuationRequest;
fn main() { assert!(CommandContinuationRequest::basic(None, "okay").is_err()); }
''', "a continuation request whose text is one base64 group", "an ambiguous continuation request can be built: it reads as base64 data")


seed("c13-continue-shadow", "C13", [("imap-types/src/response.rs", "        Self::new(value.code, value.text)\n", "        match value.code {\n            None if value.text.as_ref().starts_with('[') => Err(ContinueError::Ambiguity),\n            code => Ok(Self { code, text: value.text }),\n        }\n")], r'''
use imap_types::response::CommandContinuationRequest;
fn main() {
    assert!(serde_json::from_str::<CommandContinuationRequest>("{\"type\":\"Basic\",\"content\":{\"code\":null,\"text\":\"b2theQ==\"}}").is_err());
}''', "a serialised continuation request without code whose text is valid base64", "deserialising builds an ambiguous continuation request")

seed("c14-list-string", "C14", [("imap-types/src/mailbox.rs", """        // TODO(efficiency)
        if let Ok(lcs) = ListCharString::try_from(s.clone()) {""", """        // TODO(efficiency)
        if let (Ok(lcs), false) = (ListCharString::try_from(s.clone()), s.contains(']')) {""")], r'''
use imap_types::mailbox::ListMailbox;
fn main() { assert!(matches!(ListMailbox::try_from(String::from("a]b*")).unwrap(), ListMailbox::Token(_))); }
''', "an owned list-mailbox string with a closing bracket", "a more expensive representation than necessary is chosen")



# --- third round ---
seed("c02-literal-slice", "C02", [(FR, "        if unprocessed_bytes.len() < self.remaining as usize {\n            // Not enough bytes yet\n            let parsed_byte_count = unprocessed_bytes.len();", "        // Literals can be copied in bulk\n        let available = unprocessed_bytes.as_slices().0.len();\n        if available < self.remaining as usize {\n            // Not enough bytes yet\n            let parsed_byte_count = available;")], PRE_F + r'''
fn main() {
    for n in 1..80usize {
        for m in 1..80usize {
            let mut f = Fragmentizer::without_max_message_size();
            f.enqueue_bytes(format!("{} NOOP\r\nB {{{m}}}\r\n", "A".repeat(n)).as_bytes());
            assert!(f.progress().is_some());
            f.enqueue_bytes(&vec![b'x'; m]);
            assert!(f.progress().is_some(), "{n} {m}");
            assert!(f.progress().is_some(), "{n} {m}");
        }
    }
}''', "literal data that wraps around in the internal ring buffer", "the literal is withheld although all of its bytes have been enqueued")

seed("c01-brace-digit", "C01", [(FR, "                    b'{' => LatestByte::OpeningBracket,\n                    b'0'..=b'9' => {\n                        let digit = (next_byte - b'0') as u32;\n                        let new_length", "                    b'0'..=b'9' => {\n                        let digit = (next_byte - b'0') as u32;\n                        let new_length")], PRE_F + r'''
fn main() {
    let mut f = Fragmentizer::without_max_message_size();
    f.enqueue_bytes(b"A {1{3}\r\nabc\r\n");
    let mut n = 0;
    while let Some(_) = f.progress() { n += 1; }
    assert_eq!(n, 3);
}''', "an opening brace directly behind a digit of an unfinished announcement", "the announcement is not seen")

seed("c11-env-swap", "C11", [("imap-codec/src/envelope.rs", "            sender,\n            _,\n            reply_to,\n            _,\n            to,", "            reply_to,\n            _,\n            sender,\n            _,\n            to,")], PRE_F + r'''
use imap_codec::imap_types::{response::{Response, Data}, fetch::MessageDataItem};
fn main() {
    let (_, r) = ResponseCodec::default().decode(b"* 1 FETCH (ENVELOPE (NIL NIL NIL ((NIL NIL \"s\" NIL)) NIL NIL NIL NIL NIL NIL))\r\n").unwrap();
    if let Response::Data(Data::Fetch { items, .. }) = r {
        if let MessageDataItem::Envelope(e) = &items.as_ref()[0] { assert_eq!(e.sender.len(), 1); return; }
    }
    panic!();
}''', "an envelope whose Sender and Reply-To differ", "Sender and Reply-To are exchanged")

seed("c16-recent-case", "C16", [("imap-codec/src/flag.rs", "        if peek.eq_ignore_ascii_case(b\"\\\\recent\") {", "        if matches!(peek, b\"\\\\Recent\" | b\"\\\\RECENT\" | b\"\\\\recent\") {")], PRE_F + r'''
fn main() {
    let a = ResponseCodec::default().decode(b"* 1 FETCH (FLAGS (\\reCENT))\r\n").unwrap().1;
    let b = ResponseCodec::default().decode(b"* 1 FETCH (FLAGS (\\Recent))\r\n").unwrap().1;
    assert_eq!(a, b);
}''', "the flag \\Recent in an unusual letter case", "it is taken as an unknown flag")

seed("c18-thread-rec", "C18", [("imap-codec/src/extensions/thread.rs", "            map(many_m_n(2, usize::MAX, thread_list), |vec| Thread::Nested {\n                answers: Vec2::unvalidated(vec),\n            }),", "            map(\n                many_m_n(2, usize::MAX, |input| {\n                    thread_list_limited(input, remaining_recursion)\n                }),\n                |vec| Thread::Nested {\n                    answers: Vec2::unvalidated(vec),\n                },\n            ),")], PRE_F + r'''
fn main() {
    let s = format!("* THREAD {}\r\n", "(".repeat(200_000));
    let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || ResponseCodec::default().decode(s.as_bytes()).is_ok()).unwrap();
    assert!(!h.join().unwrap());
}''', "a THREAD response with many opening parentheses in a row", "the decoder recurses without bound and the process dies of stack exhaustion")

seed("c21-literal-large", "C21", [("imap-codec/src/codec/encode.rs", "            LiteralMode::Sync => write!(ctx, \"{{{}}}\\r\\n\", self.as_ref().len())?,\n            LiteralMode::NonSync => write!(ctx, \"{{{}+}}\\r\\n\", self.as_ref().len())?,\n        }\n\n        ctx.push_line();\n        ctx.write_all(self.as_ref())?;\n        ctx.push_literal(self.mode());\n\n        Ok(())\n    }\n}\n\nimpl EncodeIntoContext for Quoted", "            // LITERAL-: larger literals must be synchronizing\n            LiteralMode::NonSync if self.as_ref().len() <= 4096 => {\n                write!(ctx, \"{{{}+}}\\r\\n\", self.as_ref().len())?\n            }\n            _ => write!(ctx, \"{{{}}}\\r\\n\", self.as_ref().len())?,\n        }\n\n        ctx.push_line();\n        ctx.write_all(self.as_ref())?;\n        ctx.push_literal(self.mode());\n\n        Ok(())\n    }\n}\n\nimpl EncodeIntoContext for Quoted")], PRE_F + r'''
use imap_codec::imap_types::{command::{Command, CommandBody}, core::{Literal, LiteralMode, Tag}, mailbox::Mailbox};
fn main() {
    let data = Literal::try_from(vec![b'x'; 5000]).unwrap().into_non_sync();
    let cmd = Command::new(Tag::try_from("A").unwrap(), CommandBody::login(imap_codec::imap_types::core::AString::String(imap_codec::imap_types::core::IString::Literal(data)), "p").unwrap()).unwrap();
    let _ = Mailbox::Inbox;
    // Does a server have to send a continuation request? Both sides have to agree.
    let mut f = Fragmentizer::without_max_message_size();
    for fr in CommandCodec::default().encode(&cmd) {
        match fr {
            Fragment::Line { data } => f.enqueue_bytes(&data),
            Fragment::Literal { data, mode } => {
                match f.progress() {
                    Some(FragmentInfo::Line { announcement: Some(a), .. }) => assert!((a.mode == LiteralMode::Sync) == (mode == LiteralMode::Sync)),
                    other => panic!("{other:?}"),
                }
                f.enqueue_bytes(&data)
            }
        }
    }
}''', "a client that sends a non-synchronising literal of more than 4096 bytes", "the client sends the literal at once but announces it as synchronising, so that client and server disagree on who waits")

seed("c23-quoted-until", "C23", [("imap-codec/src/core.rs", "    let (remaining, (_, quoted, _)) = parser(input)?;\n\n    Ok((remaining, Quoted::unvalidated(unescape_quoted(quoted))))", "    // Don't start to parse (and allocate) before the closing quote is there.\n    tuple((dquote, nom::bytes::streaming::take_until(\"\\\"\")))(input)?;\n\n    let (remaining, (_, quoted, _)) = parser(input)?;\n\n    Ok((remaining, Quoted::unvalidated(unescape_quoted(quoted))))")], PRE_F + r'''
fn main() {
    match CommandCodec::default().decode(b"A LOGIN \"alice\r\n") {
        Err(CommandDecodeError::Failed) => {}
        other => panic!("{other:?}"),
    }
}''', "a line that ends inside of a quoted string", "the decoder asks for more data forever")

seed("c10-long-tag", "C10", [("imap-codec/src/core.rs", "    map(take_while1(|b| is_astring_char(b) && b != b'+'), |val| {", "    map(take_while_m_n(1, 255, |b| is_astring_char(b) && b != b'+'), |val: &[u8]| {")], PRE_F + r'''
fn main() {
    assert!(CommandCodec::default().decode(format!("{} NOOP\r\n", "A".repeat(300)).as_bytes()).is_ok());
}''', "a tag of more than 255 characters", "a valid command is refused")

seed("c11-flag-cap", "C11", [("imap-codec/src/flag.rs", "    delimited(tag(b\"(\"), separated_list0(sp, flag), tag(b\")\"))(input)", "    delimited(\n        tag(b\"(\"),\n        nom::combinator::verify(separated_list0(sp, flag), |flags: &Vec<Flag>| {\n            flags.len() <= 128\n        }),\n        tag(b\")\"),\n    )(input)")], PRE_F + r'''
fn main() {
    let flags: Vec<String> = (0..200).map(|i| format!("k{i}")).collect();
    assert!(ResponseCodec::default().decode(format!("* FLAGS ({})\r\n", flags.join(" ")).as_bytes()).is_ok());
}''', "a FLAGS response with more than 128 flags", "a valid response is refused")

seed("c07-long-quoted", "C07", [("imap-codec/src/codec/encode.rs", "        write!(ctx, \"\\\"{}\\\"\", escape_quoted(self.inner()))\n    }\n}\n\nimpl EncodeIntoContext for Mailbox", "        // Keep lines short\n        if self.inner().len() > 1024 {\n            return Literal::unvalidated(self.inner().as_bytes()).encode_ctx(ctx);\n        }\n        write!(ctx, \"\\\"{}\\\"\", escape_quoted(self.inner()))\n    }\n}\n\nimpl EncodeIntoContext for Mailbox")], PRE_F + r'''
use imap_codec::imap_types::{command::{Command, CommandBody}, core::{IString, Quoted, Tag, AString}};
fn main() {
    let q = Quoted::try_from("a b".repeat(500)).unwrap();
    let cmd = Command::new(Tag::try_from("A").unwrap(), CommandBody::login(AString::String(IString::Quoted(q)), "p").unwrap()).unwrap();
    let b = CommandCodec::default().encode(&cmd).dump();
    assert_eq!(CommandCodec::default().decode(&b).unwrap().1, cmd);
}''', "a quoted string of more than 1024 characters", "it is encoded as a literal and decodes to another value")

seed("c06-cancel-blank", "C06", [("imap-codec/src/auth.rs", "        value(AuthenticateData::Cancel, tuple((tag(\"*\"), crlf))),", "        value(\n            AuthenticateData::Cancel,\n            tuple((tag(\"*\"), crlf, nom::combinator::opt(nom::combinator::complete(crlf)))),\n        ),")], PRE_F + r'''
fn main() {
    assert_eq!(AuthenticateDataCodec::default().decode(b"*\r\n\r\n").unwrap().0, b"\r\n");
}''', "a cancelled AUTHENTICATE directly followed by an empty line", "the decoder consumes bytes of the next message")

seed("c15-wrap", "C15", [("imap-types/src/sequence.rs", "        if last.0 <= x && x <= last.1.saturating_add(1) {", "        if last.0 <= x && x <= last.1.wrapping_add(1) {")], r'''
use imap_types::sequence::SequenceSet;
fn main() {
    let s = SequenceSet::try_from("4294967290:4294967295,4294967293:4294967294").unwrap();
    let v: Vec<_> = s.iter(u32::MAX.try_into().unwrap()).collect();
    assert_eq!(v.len(), 6);
}''', "overlapping ranges that reach the largest number", "numbers are given more than once")


seed("c22-macro-full", "C22", [("imap-types/src/fetch.rs", "            Self::Full => vec![Flags, InternalDate, Rfc822Size, Envelope, Body],", "            Self::Full => vec![Flags, InternalDate, Rfc822Size, Envelope, BodyStructure],")], r'''
use imap_types::fetch::{Macro, MessageDataItemName};
fn main() { assert!(Macro::Full.expand().contains(&MessageDataItemName::Body)); }
''', "expanding the macro FULL", "it expands to BODYSTRUCTURE instead of BODY")

seed("c17-remainder", "C17", [(FR, "#[derive(Clone, Debug, Eq, PartialEq)]\npub enum DecodeMessageError<'a, C: Decoder> {", '''impl<'a, C: Decoder> std::fmt::Debug for DecodeMessageError<'a, C>
where
    C::Error<'a>: std::fmt::Debug,
    C::Message<'a>: std::fmt::Debug,
{
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Self::DecodingFailure(error) => f.debug_tuple("DecodingFailure").field(error).finish(),
            Self::DecodingRemainder { message, remainder } => f
                .debug_struct("DecodingRemainder")
                .field("message", message)
                .field("remainder", remainder)
                .finish(),
            Self::MessageTooLong { initial } => f
                .debug_struct("MessageTooLong")
                .field("initial", initial)
                .finish(),
            Self::MessagePoisoned { discarded } => f
                .debug_struct("MessagePoisoned")
                .field("discarded", discarded.declassify())
                .finish(),
        }
    }
}

#[derive(Clone, Eq, PartialEq)]
pub enum DecodeMessageError<'a, C: Decoder> {''')], PRE_F + r'''
fn main() {
    let text = |p: &str| {
        let mut f = Fragmentizer::without_max_message_size();
        f.enqueue_bytes(format!("A LOGIN alice {p}\r\n").as_bytes());
        f.progress();
        f.poison_message();
        format!("{:?}", f.decode_message(&CommandCodec::default()).unwrap_err())
    };
    assert_eq!(text("secret1"), text("secret2"));
}''', "the debug text of the error for a poisoned message, in a build without debug assertions", "the discarded message, with the password, is printed")
