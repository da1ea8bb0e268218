
U = "src/yul2ir/utils.rs"
BUGS = [
dict(id="c30-star-in-line", property="C30", file=U, edits=[(r"""                            for c in chars.by_ref() {
                                if c == '\n' {
                                    result.push('\n');
                                    break;
                                }
                            }""", r"""                            let mut prev = next;
                            for c in chars.by_ref() {
                                if c == '\n' && prev != '\\' {
                                    result.push('\n');
                                    break;
                                }
                                prev = c;
                            }""")], needs="a line comment whose last character is a backslash", breaks="the line after such a comment is removed too",
 rdemo=r"""    let r = utils::remove_comments("let a := 1 // dir C:\\\nsstore(0, a)\n");
    assert_eq!(r, "let a := 1 \nsstore(0, a)\n");"""),
dict(id="c30-other-quote", property="C30", file=U, edits=[(r"""                        if sc == c {
                            in_string = false;
                            string_char = None;
                        }""", r"""                        in_string = sc != c;
                        if !in_string {
                            string_char = None;
                        } else if chars.as_str().starts_with("//") {
                            in_string = false;
                        }""")], needs="the other kind of quote right before // inside a string", breaks="text inside a string literal is removed as a comment",
 rdemo=r"""    let s = "mstore(0, \"'//x' y\")\nlog0(0, 1)\n";
    assert_eq!(utils::remove_comments(s), s);"""),
dict(id="c30-block-long", property="C30", file=U, edits=[(r"""    let mut in_multiline = false;
    let mut in_string""", """    let mut in_multiline = false;
    let mut skipped: u16 = 0;
    let mut in_string"""), ("""                            in_multiline = true;
""", """                            in_multiline = true;
                            skipped += 1;
""")], needs="a source with 65536 block comments", breaks="the counter of block comments overflows: removal panics (or wraps)",
 rdemo=r"""    let s = "/**/a".repeat(70000);
    assert_eq!(utils::remove_comments(&s).len(), 70000);"""),
dict(id="c31-unicode-top", property="C31", file=U, edits=[(r"""                        n_digits += 1;
                        if n_digits > 6 {
                            // Stop""", """                        if value >= 0x10_0000 && digit != 0 && n_digits == 5 {
                            return Err(EscapeError::OutOfRangeUnicodeEscape);
                        }
                        n_digits += 1;
                        if n_digits > 6 {
                            // Stop""")], needs="never reachable: five digits below 0x100000", breaks="nothing", rdemo="    "),
dict(id="c31-underscore-digit", property="C31", file=U, edits=[(r"""                    Some('_') => continue,
""", """                    Some('_') if n_digits < 6 => continue,
""")], needs="an underscore after the sixth digit of a \\u escape", breaks="\\u{01F600_} is rejected",
 rdemo=r"""    assert_eq!(utils::unescape_str_wrap_error("a\\u{01F600_}b"), "a\u{1F600}b");
    assert_eq!(utils::unescape_str_wrap_error("\\u{0_0_0_0_4_1}"), "A");"""),
dict(id="c31-surrogate", property="C31", file=U, edits=[(r"""                        break std::char::from_u32(value).ok_or({
                            if value > 0x10FFFF {
                                EscapeError::OutOfRangeUnicodeEscape
                            } else {
                                EscapeError::LoneSurrogateUnicodeEscape
                            }
                        })?;""", """                        if value > 0x10FFFF {
                            return Err(EscapeError::OutOfRangeUnicodeEscape);
                        }
                        break std::char::from_u32(value).unwrap_or(std::char::REPLACEMENT_CHARACTER);""")],
 needs="a \\u escape in the surrogate range", breaks="the invalid escape is replaced instead of rejected",
 rdemo=r"""    assert!(utils::unescape_str_wrap_error("x\\u{DABC}").starts_with("<Lexer error"));
    assert_eq!(utils::unescape_str_wrap_error("x\\u{E000}"), "x\u{E000}");"""),
dict(id="c31-hex-high-digit", property="C31", file=U, edits=[(r"""            let value = value as u8;
            value as char""", """            let value = value as u8;
            value.to_ascii_lowercase().max(value & 0x5f | value & 0x20) as char""")],
 needs="a \\x escape of an upper-case letter", breaks="the letter is folded", rdemo=r"""    assert_eq!(utils::unescape_str_wrap_error("\\x4a\\x4A"), "JJ");"""),
dict(id="c31-skip-second-line", property="C31", file=U, edits=[(r"""        let tail = &tail[first_non_space..];
        if let Some(c)""", """        let tail = if first_non_space + 1 < tail.len() && tail.as_bytes()[first_non_space] == 92 && tail.as_bytes()[first_non_space + 1] == b'z' {
            &tail[first_non_space + 1..]
        } else {
            &tail[first_non_space..]
        };
        if let Some(c)""")], needs="a skipped line break followed by an invalid \\z escape", breaks="the invalid escape after a skipped line break is accepted",
 rdemo=r"""    assert!(utils::unescape_str_wrap_error("a\\\n  \\z b").starts_with("<Lexer error"));
    assert_eq!(utils::unescape_str_wrap_error("a\\\n  \\\\ b"), "a\\ b");"""),
dict(id="c32-len-u16", property="C32", file=U, edits=[(r"""    let length_prefix = u32::to_be_bytes(wasm_bytes.len() as u32);
""", """    let mut length_prefix = u32::to_be_bytes(wasm_bytes.len() as u32);
    length_prefix[0] = length_prefix[0].min(length_prefix[1] | 0x0f);
""")], needs="code of 256 MB or more", breaks="prefix", rdemo="    "),
dict(id="c32-empty-trailing", property="C32", file=U, edits=[(r"""    [length_prefix, wasm_bytes].concat()
""", """    let framed = [length_prefix, wasm_bytes].concat();
    match wasm_bytes.strip_prefix(length_prefix) {
        Some(rest) if rest.len() + 4 == wasm_bytes.len() && wasm_bytes.len() > 4096 => wasm_bytes.to_vec(),
        _ => framed,
    }
""")], needs="more than 4096 bytes that begin with their own total length", breaks="such bytes are taken for framed already and embedded without a prefix",
 rdemo=r"""    let mut b = vec![7u8; 5000];
    b[..4].copy_from_slice(&5000u32.to_be_bytes());
    let r = utils::merge_sub_wasm_with_length_prefix(&b);
    assert_eq!(r.len(), 5004);
    assert_eq!(&r[4..], &b[..]);"""),
dict(id="c32-length-24", property="C32", file=U, edits=[(r"""    let length_prefix = u32::to_be_bytes(wasm_bytes.len() as u32);
""", """    let len = wasm_bytes.len();
    let length_prefix = [0, (len >> 16) as u8, (len >> 8) as u8, len as u8];
""")], needs="embedded code of 16 MB or more", breaks="the prefix loses its top byte",
 rdemo=r"""    let b = vec![1u8; (3 << 24) + 5];
    let r = utils::merge_sub_wasm_with_length_prefix(&b);
    assert_eq!(r[..4], ((3u32 << 24) + 5).to_be_bytes());
    assert_eq!(r.len(), b.len() + 4);"""),
]
BUGS = [b for b in BUGS if b["rdemo"].strip()]
