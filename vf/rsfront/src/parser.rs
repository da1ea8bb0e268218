//! One record per line: kind and text in hex; answers O<text in hex>, E (rejected) or P (panic).
#![allow(dead_code)]
pub mod yul2ir {
    use lalrpop_util::lalrpop_mod;
    lalrpop_mod!(pub yul);

    #[path = "@SRC@/yul2ir/ast.rs"]
    pub mod ast;
    #[path = "@SRC@/yul2ir/utils.rs"]
    pub mod utils;
}
use std::io::{BufRead, Write};
use yul2ir::{ast, yul};

fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}

fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{b:02x}")).collect()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let sp = yul::StringLiteralParser::new();
    let dp = yul::DataLiteralParser::new();
    let ip = yul::InnerSegmentParser::new();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let (kind, text) = (&l[..1], unhex(&l[1..]));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match kind {
            "s" => sp.parse(&text).ok().map(|x| x.str),
            "d" => dp.parse(&text).ok().map(|x| match x {
                ast::DataLiteral::HexLiteral(h) => h,
                ast::DataLiteral::StringLiteral(h) => h,
            }),
            _ => ip.parse(&text).ok().map(|x| match x {
                ast::InnerSegment::Data(n, ds) => {
                    let mut r = n;
                    for d in ds {
                        r.push('|');
                        r.push_str(&match d {
                            ast::DataLiteral::HexLiteral(h) => h,
                            ast::DataLiteral::StringLiteral(h) => h,
                        });
                    }
                    r
                }
                ast::InnerSegment::Object(o) => o.name,
            }),
        }));
        let a = match r {
            Err(_) => "P".to_string(),
            Ok(None) => "E".to_string(),
            Ok(Some(s)) => format!("O{}", hex(&s)),
        };
        writeln!(out, "{a}").unwrap();
    }
}
