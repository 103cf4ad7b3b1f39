//! Runs the real parser on a batch of documents and writes one JSON line per document: the
//! recorded run that the TLA+ specification is checked against.
//!
//! usage: elm-verif-harness IN OUT TIMEOUT_S
//!        elm-verif-harness cli DUMP IN OUT TIMEOUT_S
//!        elm-verif-harness debug IN OUT
//!
//! IN holds frames `<id> <byte length>\n<bytes>\n`.  Each line of OUT is
//! {"id":..,"outcome":"accept|reject|panic|timeout|baddebug","rest":..,"src":[..],"cps":[..],"tree":[..]}.
//! "rest" tells how many characters, at the end of the text, the error report quotes as unread:
//! -1 if that was not observed, -2 if what it quotes is not an end of the text.
//! The process stops after a time-out (exit 3); the caller resumes with the documents left.

use std::fs::File;
use std::io::{BufWriter, Read, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

mod tree;

fn json_str(out: &mut String, s: &str) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

/// Writes a node; below `DEEP` levels a subtree is written to `parts` and referred to as
/// {"k":"@","s":"<index>"}, because JSON readers limit nesting.
const DEEP: usize = 40;

fn json_node(out: &mut String, n: &tree::Node, depth: usize, parts: &mut Vec<String>) {
    if depth == DEEP && !n.c.is_empty() {
        let mut part = String::new();
        json_node(&mut part, n, 0, parts);
        parts.push(part);
        out.push_str(&format!("{{\"k\":\"@\",\"s\":\"{}\",\"c\":[]}}", parts.len()));
        return;
    }
    out.push_str("{\"k\":");
    json_str(out, &n.k);
    out.push_str(",\"s\":");
    json_str(out, &n.s);
    out.push_str(",\"c\":[");
    for (i, c) in n.c.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        json_node(out, c, depth + 1, parts);
    }
    out.push_str("]}");
}

fn line(id: &str, text: &str, outcome: &str, tree: &[tree::Node], ms: u128) -> String {
    line_rest(id, text, outcome, tree, ms, -1)
}

fn line_rest(id: &str, text: &str, outcome: &str, tree: &[tree::Node], ms: u128, rest: i64) -> String {
    let mut out = String::new();
    out.push_str("{\"id\":");
    json_str(&mut out, id);
    out.push_str(",\"outcome\":\"");
    out.push_str(outcome);
    out.push_str(&format!("\",\"ms\":{},\"rest\":{},\"src\":[", ms, rest));
    for (i, c) in text.chars().enumerate() {
        if i > 0 {
            out.push(',');
        }
        json_str(&mut out, &c.to_string());
    }
    out.push_str("],\"cps\":[");
    for (i, c) in text.chars().enumerate() {
        if i > 0 {
            out.push(',');
        }
        out.push_str(&(c as u32).to_string());
    }
    out.push_str("],\"tree\":[");
    let mut parts = vec![];
    for (i, n) in tree.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        json_node(&mut out, n, 0, &mut parts);
    }
    out.push_str("],\"parts\":[");
    out.push_str(&parts.join(","));
    out.push_str("]}\n");
    out
}

fn frames(data: &[u8]) -> Vec<(String, String)> {
    let mut v = vec![];
    let mut i = 0;
    while i < data.len() {
        let nl = i + data[i..].iter().position(|b| *b == b'\n').expect("frame header");
        let head = std::str::from_utf8(&data[i..nl]).expect("frame header");
        let (id, len) = head.rsplit_once(' ').expect("frame header");
        let len: usize = len.parse().expect("frame length");
        let body = &data[nl + 1..nl + 1 + len];
        v.push((id.to_string(), String::from_utf8(body.to_vec()).expect("utf-8")));
        i = nl + 1 + len + 1;
    }
    v
}


/// One document, one run of the real command line tool.
fn run_cli(dump: &str, scratch: &str, text: &str, limit: Duration) -> Result<Result<String, i64>, &'static str> {
    use std::process::{Command, Stdio};
    let doc = format!("{}.elm", scratch);
    let res = format!("{}.out", scratch);
    std::fs::write(&doc, text).expect("scratch");
    let mut child = Command::new(dump)
        .arg(&doc)
        .stdin(Stdio::null())
        .stdout(File::create(&res).expect("scratch"))
        .stderr(Stdio::null())
        .spawn()
        .expect("dump");
    let t = Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().expect("wait") {
            break s;
        }
        if t.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return Err("timeout");
        }
        std::thread::sleep(Duration::from_micros(300));
    };
    if !status.success() {
        return Err("panic");
    }
    let mut s = String::new();
    File::open(&res).expect("scratch").read_to_string(&mut s).map_err(|_| "baddebug")?;
    let _ = std::fs::remove_file(&doc);
    let _ = std::fs::remove_file(&res);
    if reports(&s) != 1 {
        return Err("noise");
    }
    Ok(if s.starts_with('[') { Ok(s) } else { Err(quoted(&s, text)) })
}

/// What an error report quotes, as a number of characters at the end of the text.
fn quoted(report: &str, text: &str) -> i64 {
    for l in report.lines() {
        let l = l.trim().trim_end_matches(',');
        if l.starts_with('"') {
            return match tree::parse(l) {
                Some(ref n) if text.ends_with(&n.s) => n.s.chars().count() as i64,
                _ => -2,
            };
        }
    }
    match report.find('"') {
        None => -2,
        Some(i) => match tree::quoted(&report[i..]) {
            Some(ref q) if text.ends_with(q) => q.chars().count() as i64,
            _ => -2,
        },
    }
}

/// How many pretty printed values there are in the output of the tool.
fn reports(s: &str) -> usize {
    let (mut n, mut inside) = (0, false);
    for l in s.lines() {
        if inside {
            inside = !l.starts_with(|c| c == ')' || c == ']' || c == '}');
        } else {
            n += 1;
            inside = l.ends_with(|c| c == '(' || c == '[' || c == '{');
        }
    }
    n
}

fn judge(id: &str, text: &str, tree: Option<String>, ms: u128) -> String {
    match tree {
        None => line(id, text, "reject", &[], ms),
        Some(s) => match tree::parse(&s) {
            Some(n) if n.k == "[]" => line(id, text, "accept", &n.c, ms),
            _ => line(id, text, "baddebug", &[], ms),
        },
    }
}

fn cli(dump: &str, input: &str, output: &str, limit: Duration) {
    let mut data = vec![];
    File::open(input).expect("in").read_to_end(&mut data).expect("in");
    let mut w = BufWriter::new(File::create(output).expect("out"));
    for (id, text) in frames(&data) {
        let t = Instant::now();
        let l = match run_cli(dump, output, &text, limit) {
            Ok(Ok(tree)) => judge(&id, &text, Some(tree), t.elapsed().as_millis()),
            Ok(Err(rest)) => line_rest(&id, &text, "reject", &[], t.elapsed().as_millis(), rest),
            Err(what) => line(&id, &text, what, &[], t.elapsed().as_millis()),
        };
        w.write_all(l.as_bytes()).unwrap();
    }
    w.flush().unwrap();
}

/// Printed trees (the frames of `input`) as nodes: one line {"tree":[..],"parts":[..]} each, or
/// null for text that is not a printed list of statements.
fn debug(input: &str, output: &str) {
    let mut data = vec![];
    File::open(input).expect("in").read_to_end(&mut data).expect("in");
    let mut w = BufWriter::new(File::create(output).expect("out"));
    for (_, text) in frames(&data) {
        let mut out = String::new();
        match tree::parse(&text) {
            Some(ref n) if n.k == "[]" => {
                let mut parts = vec![];
                out.push_str("{\"tree\":[");
                for (i, c) in n.c.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    json_node(&mut out, c, 0, &mut parts);
                }
                out.push_str("],\"parts\":[");
                out.push_str(&parts.join(","));
                out.push_str("]}\n");
            }
            _ => out.push_str("null\n"),
        }
        w.write_all(out.as_bytes()).unwrap();
    }
    w.flush().unwrap();
}

#[cfg(not(feature = "hook"))]
fn hook(_: &str, _: &str, _: Duration) {
    eprintln!("built without the hook");
    std::process::exit(2);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 4 && args[1] == "debug" {
        return debug(&args[2], &args[3]);
    }
    if args.len() == 6 && args[1] == "cli" {
        let limit = Duration::from_secs_f64(args[5].parse().expect("timeout"));
        return cli(&args[2], &args[3], &args[4], limit);
    }
    hook(&args[1], &args[2], Duration::from_secs_f64(args[3].parse().expect("timeout")));
}

#[cfg(feature = "hook")]
fn hook(input: &str, output: &str, limit: Duration) {
    let mut data = vec![];
    File::open(input).expect("in").read_to_end(&mut data).expect("in");
    let docs = Arc::new(frames(&data));
    let out = File::create(output).expect("out");

    std::panic::set_hook(Box::new(|_| {}));
    let at = Arc::new(AtomicUsize::new(0));
    let (docs_, at_, out_) = (docs.clone(), at.clone(), out.try_clone().unwrap());
    let worker = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let mut w = BufWriter::new(out_);
            for (i, (id, text)) in docs_.iter().enumerate() {
                at_.store(i, Ordering::SeqCst);
                // Whatever kills the process, the runs before this one are on record.
                if i % 64 == 0 || text.len() > 2000 {
                    w.flush().unwrap();
                }
                let t = Instant::now();
                let r = std::panic::catch_unwind(|| elm_parser::verif_parse(text));
                let ms = t.elapsed().as_millis();
                let l = match r {
                    Err(_) => line(id, text, "panic", &[], ms),
                    Ok(tree) => judge(id, text, tree, ms),
                };
                w.write_all(l.as_bytes()).unwrap();
            }
            w.flush().unwrap();
        })
        .unwrap();
    let mut seen = (usize::MAX, Instant::now());
    while !worker.is_finished() {
        std::thread::sleep(Duration::from_millis(2));
        let now = at.load(Ordering::SeqCst);
        if now != seen.0 {
            seen = (now, Instant::now());
        } else if seen.1.elapsed() > limit && now < docs.len() {
            std::process::exit(3);
        }
    }
    if worker.join().is_err() {
        std::process::exit(4);
    }
}
