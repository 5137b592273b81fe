//! Drives scutiger-core's pkt-line reader and writer as told on standard input,
//! one case per line, and reports what they did, one line per case.
//!
//!   R <chunk> <packets> <operations>
//!   W <chunk> <operations>
//!   H <hex digits of the input>
//!
//! <chunk>: how many bytes the transport moves at a time; 0: all; with an `i`
//! behind, every other call is interrupted.  <packets>: d<n> data packet of n
//! bytes, f flush, l delimiter, x<hex> raw bytes, comma-separated.  Operations:
//! r<n> read into a buffer of n bytes, p read_packet, s skip_to_flush, i next on
//! the iterator; w<n> write n bytes, p<n> write_packet of n bytes, f flush
//! packet, l delimiter packet.  The k-th payload byte of a case is byte_at(k).

extern crate scutiger_core;

use scutiger_core::errors::ErrorKind;
use scutiger_core::pktline::{Packet, PacketType, Reader, Writer};
use std::io::{self, BufRead, Read, Write};
use std::panic;

fn byte_at(k: usize) -> u8 {
    (k as u32).wrapping_mul(2654435761).rotate_left(11) as u8
}

fn payload(from: usize, n: usize) -> Vec<u8> {
    (from..from + n).map(byte_at).collect()
}

struct Source {
    data: Vec<u8>,
    pos: usize,
    chunk: usize,
    interrupt: bool,
    calls: usize,
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupt && self.calls % 2 == 0 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let mut n = std::cmp::min(buf.len(), self.data.len() - self.pos);
        if self.chunk > 0 {
            n = std::cmp::min(n, self.chunk);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(Default)]
struct Sink {
    data: Vec<u8>,
    chunk: usize,
    interrupt: bool,
    calls: usize,
}

impl Write for &mut Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupt && self.calls % 2 == 0 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let n = if self.chunk > 0 { std::cmp::min(buf.len(), self.chunk) } else { buf.len() };
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn chunk(s: &str) -> (usize, bool) {
    let i = s.ends_with('i');
    (s.trim_end_matches('i').parse().unwrap(), i)
}

fn kind(k: ErrorKind) -> &'static str {
    match k {
        ErrorKind::BadPktlineHeader => "bad",
        _ => "err",
    }
}

fn io_kind(e: io::Error) -> String {
    if e.kind() == io::ErrorKind::UnexpectedEof {
        return "eof".into();
    }
    match e.get_ref().and_then(|e| e.downcast_ref::<scutiger_core::errors::Error>()) {
        Some(e) => kind(e.kind()).into(),
        None => "err".into(),
    }
}

fn err_kind(e: scutiger_core::errors::Error) -> String {
    if e.io_kind() == io::ErrorKind::UnexpectedEof {
        return "eof".into();
    }
    kind(e.kind()).into()
}

fn packet(r: Result<Packet, scutiger_core::errors::Error>, pos: &mut usize) -> String {
    match r {
        Ok(p) => match p.packet_type() {
            PacketType::Flush => "f".into(),
            PacketType::Delim => "l".into(),
            PacketType::Data(n) => {
                let d = p.data().unwrap();
                let good = d.len() == n && d == &payload(*pos, n)[..];
                *pos += n;
                format!("{}{}", if good { "d" } else { "D" }, n)
            }
        },
        Err(e) => err_kind(e),
    }
}

fn read_case(ch: &str, packets: &str, ops: &str) -> String {
    let mut data = vec![];
    let mut k = 0;
    // kind of each packet and the number of payload bytes before its end
    let mut ends: Vec<(char, usize)> = vec![];
    for p in packets.split(',').filter(|p| !p.is_empty()) {
        let (t, arg) = p.split_at(1);
        match t {
            "d" => {
                let n: usize = arg.parse().unwrap();
                data.extend_from_slice(format!("{:04x}", n + 4).as_bytes());
                data.extend(payload(k, n));
                k += n;
            }
            "f" => data.extend_from_slice(b"0000"),
            "l" => data.extend_from_slice(b"0001"),
            _ => data.extend(unhex(arg)),
        }
        ends.push((t.chars().next().unwrap(), k));
    }
    let (c, i) = chunk(ch);
    let mut rdr = Reader::new(Source { data, pos: 0, chunk: c, interrupt: i, calls: 0 });
    let mut pos = 0;
    // how many packets have been begun, to know which bytes follow a skip
    let mut idx = 0;
    let mut flushed = false;
    let mut out: Vec<String> = vec![];
    for o in ops.split(',').filter(|p| !p.is_empty()) {
        let (t, arg) = o.split_at(1);
        let before = pos;
        out.push(match t {
            "r" => {
                let n: usize = arg.parse().unwrap();
                let mut buf = vec![0xa5u8; n];
                match rdr.read(&mut buf) {
                    Ok(m) if m > n => "over".into(),
                    Ok(m) => {
                        let good = buf[..m] == payload(pos, m)[..];
                        pos += m;
                        format!("{}{}", if good { "r" } else { "R" }, m)
                    }
                    Err(e) => io_kind(e),
                }
            }
            "p" => packet(rdr.read_packet(), &mut pos),
            "i" => match rdr.iter().next() {
                None => "none".into(),
                Some(r) => packet(r, &mut pos),
            },
            "s" => match rdr.skip_to_flush() {
                Ok(()) => "skipped".into(),
                Err(e) => err_kind(e),
            },
            _ => panic!("operation"),
        });
        let last = out[out.len() - 1].clone();
        if pos > before {
            idx = ends.iter().position(|e| e.1 >= pos).unwrap_or(ends.len()) + 1;
            flushed = false;
        } else if t == "p" || t == "i" {
            flushed = last == "f";
            idx += 1;
        } else if (last == "r0" && o != "r0") || (last == "skipped" && !flushed) {
            while idx < ends.len() && ends[idx].0 != 'f' && (t == "s" || ends[idx].0 != 'l') {
                idx += 1;
            }
            flushed = idx < ends.len() && ends[idx].0 == 'f';
            if idx < ends.len() {
                pos = ends[idx].1;
            }
            idx += 1;
        }
    }
    out.join(",")
}

/// The packets in `data`, by a parser of our own; the payload has to be that of the case.
fn packets_in(data: &[u8]) -> String {
    let mut out = vec![];
    let (mut i, mut k) = (0, 0);
    while i < data.len() {
        if data.len() - i < 4 {
            out.push("cut".into());
            break;
        }
        let mut v = 0usize;
        let mut ok = true;
        for &c in &data[i..i + 4] {
            let d = b"0123456789abcdef".iter().position(|&x| x == c);
            ok &= d.is_some();
            v = v * 16 + d.unwrap_or(0);
        }
        i += 4;
        if !ok || v == 2 || v == 3 {
            out.push("malformed".into());
            break;
        }
        if v < 2 {
            out.push(if v == 0 { "f".to_string() } else { "l".to_string() });
            continue;
        }
        let n = v - 4;
        if data.len() - i < n {
            out.push("cut".into());
            break;
        }
        let good = data[i..i + n] == payload(k, n)[..];
        k += n;
        i += n;
        out.push(format!("{}{}", if good { "d" } else { "D" }, n));
    }
    out.join(",")
}

fn write_case(ch: &str, ops: &str) -> String {
    let (c, i) = chunk(ch);
    let mut sink = Sink { chunk: c, interrupt: i, ..Sink::default() };
    let mut k = 0;
    let mut out = vec![];
    {
        let mut w = Writer::new(&mut sink);
        for o in ops.split(',').filter(|p| !p.is_empty()) {
            let (t, arg) = o.split_at(1);
            out.push(match t {
                "w" => {
                    let n: usize = arg.parse().unwrap();
                    match w.write(&payload(k, n)) {
                        Ok(m) => {
                            k += m;
                            format!("w{}", m)
                        }
                        Err(e) => io_kind(e),
                    }
                }
                "p" => {
                    let n: usize = arg.parse().unwrap();
                    match w.write_packet(&Packet::new(PacketType::Data(n), &payload(k, n))) {
                        Ok(_) => {
                            k += n;
                            format!("p{}", n)
                        }
                        Err(e) => err_kind(e),
                    }
                }
                "f" | "l" => {
                    let p = Packet::new(if t == "f" { PacketType::Flush } else { PacketType::Delim }, b"");
                    match w.write_packet(&p) {
                        Ok(_) => t.into(),
                        Err(e) => err_kind(e),
                    }
                }
                _ => panic!("operation"),
            });
        }
    }
    format!("{} {}", out.join(","), packets_in(&sink.data))
}

/// What four bytes are taken for, read as a packet and as a stream.
fn header(h: &[u8]) -> String {
    let body = payload(0, 65536);
    let mut data = h.to_vec();
    data.extend_from_slice(&body);
    let src = |data: Vec<u8>| Source { data, pos: 0, chunk: 0, interrupt: false, calls: 0 };
    let mut rdr = Reader::new(src(data.clone()));
    let mut pos = 0;
    let a = packet(rdr.read_packet(), &mut pos);
    let mut out = vec![a];
    for &size in &[10usize, 70000] {
        let mut rdr = Reader::new(src(data.clone()));
        let mut buf = vec![0u8; size];
        out.push(match rdr.read(&mut buf) {
            Ok(m) if m > size => "over".into(),
            Ok(m) => format!("{}{}", if buf[..m] == body[..m] { "r" } else { "R" }, m),
            Err(e) => io_kind(e),
        });
    }
    out.join(",")
}

fn main() {
    panic::set_hook(Box::new(|_| {}));
    let stdin = io::stdin();
    let stdout = io::stdout();
    let mut out = io::BufWriter::new(stdout.lock());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let f: Vec<&str> = line.split(' ').collect();
        let r = panic::catch_unwind(|| match f[0] {
            "R" => read_case(f[1], f[2], f[3]),
            "W" => write_case(f[1], f[2]),
            "H" => header(&unhex(f[1])),
            _ => "?".to_string(),
        });
        writeln!(out, "{}", r.unwrap_or_else(|_| "panic".to_string())).unwrap();
    }
}
