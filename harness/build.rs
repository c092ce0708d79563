//! Collects the literals of the crate under test, as fuzzers do: numbers, characters and texts that
//! the code mentions are worth trying as lengths, counts and contents. They only steer the workload.
use std::collections::BTreeSet;
use std::fmt::Write;
use std::path::{Path, PathBuf};

fn files(d: &Path, out: &mut Vec<PathBuf>) {
    if let Ok(es) = std::fs::read_dir(d) {
        for e in es.flatten() {
            let p = e.path();
            if p.is_dir() {
                files(&p, out);
            } else if p.extension().is_some_and(|x| x == "rs") {
                out.push(p);
            }
        }
    }
}

fn number(t: &str) -> Option<u64> {
    let t = t.replace('_', "");
    let (radix, t) = match t.get(..2) {
        Some("0x") => (16, &t[2..]),
        Some("0b") => (2, &t[2..]),
        Some("0o") => (8, &t[2..]),
        _ => (10, &t[..]),
    };
    let end = if radix == 16 {
        t.find(|c: char| !c.is_ascii_hexdigit()).unwrap_or(t.len())
    } else {
        t.find(|c: char| !c.is_ascii_digit()).unwrap_or(t.len())
    };
    u64::from_str_radix(&t[..end], radix).ok()
}

fn scan(src: &str, nums: &mut BTreeSet<u64>, texts: &mut BTreeSet<String>) {
    let src = src.split("#[cfg(test)]").next().unwrap_or("");
    let c: Vec<char> = src.chars().collect();
    let mut i = 0;
    while i < c.len() {
        let at = |k: usize| c.get(k).copied().unwrap_or('\0');
        match c[i] {
            '/' if at(i + 1) == '/' => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '"' => {
                let mut s = String::new();
                i += 1;
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' {
                        i += 1;
                        match at(i) {
                            'n' => s.push('\n'),
                            'r' => s.push('\r'),
                            't' => s.push('\t'),
                            '0' => s.push('\0'),
                            'x' => {
                                let h: String = c[(i + 1).min(c.len())..(i + 3).min(c.len())].iter().collect();
                                if let Some(x) = u8::from_str_radix(&h, 16).ok().filter(u8::is_ascii) {
                                    s.push(x as char);
                                }
                                i += 2;
                            }
                            'u' => {
                                let h: String = c[i + 1..].iter().skip(1).take_while(|x| **x != '}').collect();
                                i += h.len() + 2;
                                s.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
                            }
                            o => s.push(o),
                        }
                    } else {
                        s.push(c[i]);
                    }
                    i += 1;
                }
                if !s.is_empty() && s.len() <= 64 {
                    texts.insert(s);
                }
                i += 1;
            }
            '\'' => {
                // a character, or a lifetime
                if at(i + 1) == '\\' {
                    let mut k = i + 2;
                    while k < c.len() && c[k] != '\'' {
                        k += 1;
                    }
                    let body: String = c[i + 2..k.min(c.len())].iter().collect();
                    let ch = match body.chars().next() {
                        Some('n') => Some('\n'),
                        Some('r') => Some('\r'),
                        Some('t') => Some('\t'),
                        Some('0') => Some('\0'),
                        Some('x') => u32::from_str_radix(&body[1..], 16).ok().and_then(char::from_u32),
                        Some('u') => u32::from_str_radix(body[1..].trim_matches(&['{', '}'][..]), 16).ok().and_then(char::from_u32),
                        o => o,
                    };
                    texts.extend(ch.map(String::from));
                    i = k + 1;
                } else if at(i + 2) == '\'' {
                    texts.insert(at(i + 1).to_string());
                    i += 3;
                } else {
                    i += 1;
                }
            }
            d if d.is_ascii_digit() => {
                let s = i;
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                    i += 1;
                }
                let t: String = c[s..i].iter().collect();
                nums.extend(number(&t));
            }
            a if a.is_alphabetic() || a == '_' => {
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                    i += 1;
                }
            }
            _ => i += 1,
        }
    }
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=Cargo.toml");
    let manifest = std::fs::read_to_string("Cargo.toml").unwrap_or_default();
    let root = manifest
        .lines()
        .find(|l| l.starts_with("stun_codec"))
        .and_then(|l| l.split("path = \"").nth(1))
        .and_then(|l| l.split('"').next())
        .unwrap_or("/repo")
        .to_owned();
    let src = Path::new(&root).join("src");
    println!("cargo:rerun-if-changed={}", src.display());
    let mut fs = Vec::new();
    files(&src, &mut fs);
    fs.sort();
    let (mut nums, mut texts) = (BTreeSet::new(), BTreeSet::new());
    for f in &fs {
        println!("cargo:rerun-if-changed={}", f.display());
        if let Ok(b) = std::fs::read(f) {
            scan(&String::from_utf8_lossy(&b), &mut nums, &mut texts);
        }
    }
    // shifts
    for n in nums.clone() {
        if n < 20 {
            nums.insert(1 << n);
        }
    }
    let mut out = String::new();
    let _ = writeln!(out, "pub const NUMS: &[u64] = &{:?};", nums.into_iter().collect::<Vec<_>>());
    let _ = writeln!(out, "pub const TEXTS: &[&str] = &{:?};", texts.into_iter().collect::<Vec<_>>());
    let dir = std::env::var("OUT_DIR").expect("OUT_DIR");
    std::fs::write(Path::new(&dir).join("dict.rs"), out).expect("dict.rs");
}
