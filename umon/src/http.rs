//! The server side of HTTP, for scripted IPFS nodes on port 5001 (which the library expects).
#![allow(dead_code)]
use std::{
    io::{Read, Result, Write},
    net::{TcpListener, TcpStream},
    time::Duration,
};

pub struct Request {
    pub head: String,
    pub line: String,
    pub path: String,
    pub query: String,
    pub body: Vec<u8>,
}
pub fn listen(connection: fn(TcpStream) -> Result<()>) {
    match TcpListener::bind("127.0.0.1:5001") {
        Ok(l) => serve(l, connection),
        Err(e) => {
            eprintln!("can not listen on 127.0.0.1:5001: {e}");
            // inconclusive
            std::process::exit(7)
        }
    }
    if let Ok(l) = TcpListener::bind("[::1]:5001") {
        serve(l, connection)
    }
}
fn serve(l: TcpListener, connection: fn(TcpStream) -> Result<()>) {
    std::thread::spawn(move || {
        for s in l.incoming().flatten() {
            std::thread::spawn(move || {
                let _ = s.set_nodelay(true);
                let _ = s.set_read_timeout(Some(Duration::from_secs(30)));
                let _ = connection(s);
            });
        }
    });
}
fn more(s: &mut TcpStream, buf: &mut Vec<u8>) -> Result<bool> {
    let mut tmp = vec![0u8; 1 << 16];
    let n = s.read(&mut tmp)?;
    buf.extend(&tmp[..n]);
    Ok(n > 0)
}
fn find(b: &[u8], x: &[u8]) -> Option<usize> {
    b.windows(x.len()).position(|w| w == x)
}
/// The next request, None: end of the connection. `buf`: what was already read.
pub fn request(s: &mut TcpStream, buf: &mut Vec<u8>) -> Result<Option<Request>> {
    let end = loop {
        if let Some(i) = find(buf, b"\r\n\r\n") {
            break i + 4;
        }
        if !more(s, buf)? {
            return Ok(None);
        }
    };
    let rest = buf.split_off(end);
    let head = String::from_utf8_lossy(buf).to_string();
    *buf = rest;
    let lower = head.to_lowercase();
    let header = |n: &str| lower.lines().find_map(|l| l.strip_prefix(&format!("{n}: ")).map(|x| x.trim().to_string()));
    if header("expect").is_some() {
        s.write_all(b"HTTP/1.1 100 Continue\r\n\r\n")?;
    }
    let mut body = vec![];
    if header("transfer-encoding").as_deref() == Some("chunked") {
        loop {
            let i = loop {
                if let Some(i) = find(buf, b"\r\n") {
                    break i;
                }
                if !more(s, buf)? {
                    return Ok(None);
                }
            };
            let len = usize::from_str_radix(String::from_utf8_lossy(&buf[..i]).trim(), 16).unwrap_or(0);
            while buf.len() < i + 2 + len + 2 {
                if !more(s, buf)? {
                    return Ok(None);
                }
            }
            body.extend(&buf[i + 2..i + 2 + len]);
            buf.drain(..i + 2 + len + 2);
            if len == 0 {
                break;
            }
        }
    } else {
        let len: usize = header("content-length").and_then(|x| x.parse().ok()).unwrap_or(0);
        while buf.len() < len {
            if !more(s, buf)? {
                return Ok(None);
            }
        }
        let rest = buf.split_off(len);
        body = std::mem::replace(buf, rest);
    }
    let line = head.lines().next().unwrap_or("").to_string();
    let url = line.split(' ').nth(1).unwrap_or("").to_string();
    let (path, query) = url.split_once('?').unwrap_or((&url, ""));
    Ok(Some(Request { path: path.into(), query: query.into(), head, line, body }))
}
fn decode(s: &str) -> Vec<u8> {
    let s = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() {
        let hex = s.get(i + 1..i + 3).and_then(|x| u8::from_str_radix(std::str::from_utf8(x).ok()?, 16).ok());
        match (s[i], hex) {
            (b'%', Some(x)) => {
                v.push(x);
                i += 2;
            }
            (b'+', _) => v.push(b' '),
            (x, _) => v.push(x),
        }
        i += 1;
    }
    v
}
/// the values of an argument
pub fn args<'a>(query: &'a str, name: &'a str) -> impl Iterator<Item = Vec<u8>> + 'a {
    query.split('&').filter_map(move |a| a.strip_prefix(name)?.strip_prefix('=')).map(decode)
}
/// the content of the only part of a form, and whether it is well formed
pub fn form(head: &str, body: &[u8]) -> (Vec<u8>, bool) {
    let boundary = head.lines().find_map(|l| l.split("boundary=").nth(1)).unwrap_or("?").trim().trim_matches('"').to_string();
    let start = find(body, b"\r\n\r\n").map(|i| i + 4).unwrap_or(0);
    let tail = format!("\r\n--{boundary}--");
    let stop = body.len().saturating_sub(tail.len() + 2);
    let content = if start <= stop { body[start..stop].to_vec() } else { vec![] };
    (content, body[stop..].starts_with(tail.as_bytes()))
}
