//! Numbers the sources under test mention, as hints for the generators.
//!
//! A branch on an unusual constant is out of reach of blind sampling. The literals of the sources
//! (and the products, shifts and powers they form) are fed back into the generated values, the way a
//! fuzzer's dictionary is. Only inputs are steered by this; no verdict looks at the text.

use proptest::prelude::*;
use std::collections::{BTreeSet, HashMap};
use std::path::Path;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Num(i128),
    Name(String),
    Op(char),
    Shl,
}

fn lex(src: &str) -> Vec<Tok> {
    let b: Vec<char> = src.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c.is_ascii_digit() {
            let s = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            let t: String = b[s..i].iter().filter(|c| **c != '_').collect();
            if let Some(n) = number(&t) {
                v.push(Tok::Num(n));
            } else {
                v.push(Tok::Op('?'));
            }
        } else if c.is_alphabetic() || c == '_' {
            let s = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_' || (b[i] == ':' && b.get(i + 1) == Some(&':'))) {
                i += if b[i] == ':' { 2 } else { 1 };
            }
            v.push(Tok::Name(b[s..i].iter().collect()));
        } else if c == '<' && b.get(i + 1) == Some(&'<') {
            v.push(Tok::Shl);
            i += 2;
        } else if c == '*' && b.get(i + 1) == Some(&'*') {
            v.push(Tok::Op('^'));
            i += 2;
        } else if c.is_whitespace() {
            i += 1;
        } else {
            v.push(Tok::Op(c));
            i += 1;
        }
    }
    v
}

fn number(t: &str) -> Option<i128> {
    let t = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "n"]
        .iter()
        .find_map(|s| t.strip_suffix(s))
        .unwrap_or(t);
    if let Some(h) = t.strip_prefix("0x") {
        i128::from_str_radix(h, 16).ok()
    } else if let Some(h) = t.strip_prefix("0b") {
        i128::from_str_radix(h, 2).ok()
    } else if let Some((m, e)) = t.split_once('e') {
        m.parse::<i128>().ok()?.checked_mul(10i128.checked_pow(e.parse().ok()?)?)
    } else {
        t.parse().ok()
    }
}

/// One factor starting at `i`: a literal, a known constant, `T::MAX`, or `n.pow(m)`.
fn atom(t: &[Tok], i: usize, consts: &HashMap<String, i128>) -> Option<(i128, usize)> {
    let (v, mut j) = match t.get(i)? {
        Tok::Num(n) => (*n, i + 1),
        Tok::Name(n) => {
            let v = match n.as_str() {
                "u8::MAX" => u8::MAX as i128,
                "i8::MAX" => i8::MAX as i128,
                "u16::MAX" => u16::MAX as i128,
                "i16::MAX" => i16::MAX as i128,
                "u32::MAX" => u32::MAX as i128,
                "i32::MAX" => i32::MAX as i128,
                "u64::MAX" => u64::MAX as i128,
                "i64::MAX" => i64::MAX as i128,
                n => *consts.get(n.rsplit("::").next()?)?,
            };
            (v, i + 1)
        }
        _ => return None,
    };
    let mut v = v;
    if t.get(j) == Some(&Tok::Op('.'))
        && matches!(t.get(j + 1), Some(Tok::Name(n)) if n == "pow")
        && t.get(j + 2) == Some(&Tok::Op('('))
    {
        if let Some((e, k)) = atom(t, j + 3, consts) {
            v = v.checked_pow(u32::try_from(e).ok()?)?;
            j = k + 1;
        }
    }
    while matches!(t.get(j), Some(Tok::Name(n)) if n == "as") {
        j += 2;
    }
    Some((v, j))
}

/// Every prefix value of `a * b << c / d - e …`, without precedence.
fn run(t: &[Tok], i: usize, consts: &HashMap<String, i128>, out: &mut Vec<i128>) -> Option<(i128, usize)> {
    let (mut v, mut j) = atom(t, i, consts)?;
    out.push(v);
    loop {
        let op = t.get(j).cloned();
        let f: fn(i128, i128) -> Option<i128> = match op {
            Some(Tok::Op('*')) => |a, b| a.checked_mul(b),
            Some(Tok::Op('/')) => |a, b| a.checked_div(b),
            Some(Tok::Op('+')) => |a, b| a.checked_add(b),
            Some(Tok::Op('-')) => |a, b| a.checked_sub(b),
            Some(Tok::Op('^')) => |a, b| a.checked_pow(u32::try_from(b).ok()?),
            Some(Tok::Shl) => |a, b| a.checked_mul(1i128.checked_shl(u32::try_from(b).ok()?)?),
            _ => return Some((v, j)),
        };
        let Some((b, k)) = atom(t, j + 1, consts) else {
            return Some((v, j));
        };
        let Some(r) = f(v, b) else { return Some((v, j)) };
        out.push(b);
        v = r;
        out.push(v);
        j = k;
    }
}

fn files(d: &Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(d) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            if !matches!(p.file_name().and_then(|n| n.to_str()), Some("node_modules" | "target" | "tests" | "dist")) {
                files(&p, out);
            }
        } else if matches!(p.extension().and_then(|e| e.to_str()), Some("rs" | "ts")) {
            out.push(p);
        }
    }
}

fn harvest(root: &str) -> Vec<u64> {
    let mut fs = vec![];
    for d in ["solana-program/src", "rust-client/src", "js-client/src", "ts-scripts"] {
        files(&Path::new(root).join(d), &mut fs);
    }
    fs.sort();
    let toks: Vec<Vec<Tok>> = fs.iter().filter_map(|f| std::fs::read_to_string(f).ok()).map(|s| lex(&s)).collect();
    let mut consts = HashMap::new();
    for _ in 0..2 {
        for t in &toks {
            for i in 0..t.len() {
                let (Tok::Name(k), Some(Tok::Name(n))) = (&t[i], t.get(i + 1)) else { continue };
                if !matches!(k.as_str(), "const" | "static" | "let") {
                    continue;
                }
                if let Some(e) = t[i..].iter().take(8).position(|x| *x == Tok::Op('=')) {
                    if let Some((v, _)) = run(t, i + e + 1, &consts, &mut vec![]) {
                        consts.insert(n.clone(), v);
                    }
                }
            }
        }
    }
    let mut all = vec![];
    for t in &toks {
        let mut i = 0;
        while i < t.len() {
            match run(t, i, &consts, &mut all) {
                Some((_, j)) => i = j.max(i + 1),
                None => i += 1,
            }
        }
    }
    let set: BTreeSet<u64> = all.into_iter().filter_map(|v| u64::try_from(v.unsigned_abs()).ok()).filter(|v| *v >= 200).collect();
    set.into_iter().collect()
}

pub fn numbers() -> &'static [u64] {
    static D: OnceLock<Vec<u64>> = OnceLock::new();
    D.get_or_init(|| {
        let root = std::env::var("XH_REPO").unwrap_or_else(|_| "/repo".into());
        let mut v = harvest(&root);
        if v.is_empty() {
            v.push(1 << 32);
        }
        v
    })
}

/// A value at, next to, or at a multiple of one of the numbers.
pub fn lit() -> BoxedStrategy<u64> {
    (any::<u32>(), prop_oneof![3 => Just(1u64), 1 => 2u64..1000], prop_oneof![2 => Just(0i8), 1 => Just(1i8), 1 => Just(-1i8)])
        .prop_map(|(i, k, d)| {
            let n = numbers();
            n[i as usize % n.len()].wrapping_mul(k).wrapping_add(d as i64 as u64)
        })
        .boxed()
}

/// Mixes the numbers into another generator.
pub fn with_lit(s: impl Strategy<Value = u64> + 'static) -> BoxedStrategy<u64> {
    prop_oneof![9 => s, 1 => lit()].boxed()
}
pub fn with_lit_i(s: impl Strategy<Value = i64> + 'static) -> BoxedStrategy<i64> {
    prop_oneof![9 => s, 1 => lit().prop_map(|v| v as i64)].boxed()
}
pub fn main_print() {
    println!("{:?}", numbers());
}
