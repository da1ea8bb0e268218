//! Records on stdin: 4-byte little-endian length and bytes; answers: status byte, length, bytes.
//! Status 0: result, 1: panic, 2: no answer in time.
#![allow(dead_code)]
#[path = "@SRC@/yul2ir/utils.rs"]
mod utils;
use std::io::{Read, Write};
use std::sync::atomic::{AtomicUsize, Ordering};

static AT: AtomicUsize = AtomicUsize::new(0);

fn call(b: &[u8]) -> Vec<u8> {
    @CALL@
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut inp = Vec::new();
    std::io::stdin().read_to_end(&mut inp).unwrap();
    std::thread::spawn(|| {
        let (mut last, mut n) = (usize::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = AT.load(Ordering::SeqCst);
            n = if now == last { n + 1 } else { 0 };
            last = now;
            if n >= 12 {
                std::process::exit(3);
            }
        }
    });
    let out = std::io::stdout();
    let mut out = out.lock();
    let mut buf: Vec<u8> = Vec::new();
    let mut p = 0;
    let each = std::env::var("EACH").is_ok();
    while p < inp.len() {
        let n = u32::from_le_bytes(inp[p..p + 4].try_into().unwrap()) as usize;
        let rec = &inp[p + 4..p + 4 + n];
        p += 4 + n;
        let r = std::panic::catch_unwind(|| call(rec));
        let (s, v) = match r {
            Ok(v) => (0u8, v),
            Err(_) => (1u8, Vec::new()),
        };
        buf.push(s);
        buf.extend_from_slice(&(v.len() as u32).to_le_bytes());
        buf.extend_from_slice(&v);
        if each || buf.len() > 1 << 16 {
            out.write_all(&buf).unwrap();
            out.flush().unwrap();
            buf.clear();
        }
        AT.fetch_add(1, Ordering::SeqCst);
    }
    out.write_all(&buf).unwrap();
    out.flush().unwrap();
    std::process::exit(0);
}
