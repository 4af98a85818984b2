//! JavaScript client: conversions (C16), addresses (C17), codecs, builders, fetch helpers (C21).
//! The client is bundled by js/build.sh and served by a node process per worker.

use crate::hist::*;
use crate::ledger;
use crate::p_adv::NAMES;
use crate::p_client::*;
use crate::p_hist::{part, TRUST};
use crate::runner::*;
use crate::spec::muldiv;
use crate::svm::*;
use crate::world::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::OnceLock;

// ---- the node process ---------------------------------------------------------------------

struct Node {
    child: Child,
    tx: ChildStdin,
    rx: BufReader<ChildStdout>,
}
impl Drop for Node {
    fn drop(&mut self) {
        self.child.kill().ok();
        self.child.wait().ok();
    }
}
impl Node {
    fn spawn() -> Node {
        let bundle = std::env::var("XH_JS").unwrap_or_else(|_| format!("{}/target/js/driver.mjs", verif()));
        match Node::load(&bundle) {
            Some(n) => n,
            None => {
                eprintln!("the bundled client does not load");
                std::process::exit(2);
            }
        }
    }
    /// the bundle that plays a browser
    fn spawn_web() -> Option<Node> {
        Node::load(&std::env::var("XH_JS_WEB").unwrap_or_else(|_| format!("{}/target/js/driver.web.mjs", verif())))
    }
    fn load(bundle: &str) -> Option<Node> {
        let mut child = match Command::new("node")
            .arg("--max-old-space-size=1024")
            .arg(bundle)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
        {
            Ok(c) => c,
            Err(e) => {
                eprintln!("cannot start node: {e}");
                std::process::exit(2);
            }
        };
        let tx = child.stdin.take().unwrap();
        let rx = BufReader::new(child.stdout.take().unwrap());
        let mut n = Node { child, tx, rx };
        n.ask(&json!({"op": "names"})).ok()?;
        Some(n)
    }
    fn ask(&mut self, q: &Value) -> Result<Value, String> {
        let mut line = q.to_string();
        line.push('\n');
        let mut go = || -> std::io::Result<String> {
            self.tx.write_all(line.as_bytes())?;
            self.tx.flush()?;
            let mut s = String::new();
            self.rx.read_line(&mut s)?;
            Ok(s)
        };
        match go() {
            Ok(s) if !s.is_empty() => serde_json::from_str(&s).map_err(|e| e.to_string()),
            _ => Err("the JavaScript process ended".into()),
        }
    }
}
thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
    static WEB: RefCell<Option<Node>> = const { RefCell::new(None) };
    /// while a part of C25 runs: the differences seen and the answers compared
    static DIFF: RefCell<Option<(Vec<String>, u64)>> = const { RefCell::new(None) };
}

/// Outcome of one request: the value, or the message thrown; and whether the mock RPC node refused.
type Res = (Result<Value, String>, bool);

/// The same requests in the environment that has only what browsers have.
fn ask_web(q: &Value) -> Result<Value, String> {
    WEB.with(|n| {
        let mut n = n.borrow_mut();
        if n.is_none() {
            *n = Node::spawn_web();
        }
        let r = match n.as_mut() {
            Some(w) => w.ask(q),
            None => return Err("the client cannot be loaded without what only Node provides".into()),
        };
        if r.is_err() {
            *n = None;
        }
        r
    })
}
fn compare(qs: &[Value], here: &Value) {
    DIFF.with(|d| {
        if let Some((out, n)) = d.borrow_mut().as_mut() {
            let there = match ask_web(&json!({"op": "many", "requests": qs})) {
                Ok(v) => v,
                Err(e) => return out.push(e),
            };
            for (i, q) in qs.iter().enumerate() {
                let (a, b) = (&here["ok"][i], &there["ok"][i]);
                *n += 1;
                // the wording of an error may differ
                if a.get("ok") != b.get("ok") {
                    let cut = |v: &Value| v.to_string().chars().take(300).collect::<String>();
                    let f = q["fn"].as_str().or(q["name"].as_str()).unwrap_or("?");
                    out.push(format!("{f} gives {} in Node, {} in a browser ({})", cut(a), cut(b), cut(q)));
                }
            }
        }
    })
}

fn ask_many(qs: Vec<Value>) -> Result<Vec<Res>, String> {
    let v = NODE.with(|n| {
        let mut n = n.borrow_mut();
        let r = n.get_or_insert_with(Node::spawn).ask(&json!({"op": "many", "requests": &qs}));
        if r.is_err() {
            *n = None;
        }
        r
    })?;
    compare(&qs, &v);
    let Some(a) = v["ok"].as_array() else {
        return Err(format!("driver: {v}"));
    };
    Ok(a.iter()
        .map(|r| {
            let refused = r["refused"].as_bool().unwrap_or(false);
            match r.get("err") {
                Some(e) => (Err(e.as_str().unwrap_or("?").to_string()), refused),
                None => (Ok(r["ok"].clone()), refused),
            }
        })
        .collect())
}
fn call(f: &str, args: Vec<Value>) -> Value {
    json!({"op": "call", "fn": f, "args": args})
}
fn n(x: impl std::fmt::Display) -> Value {
    json!(format!("n:{x}"))
}
fn b58(k: &Key) -> String {
    pk(k).to_string()
}
fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}
fn bytes(b: &[u8]) -> Value {
    json!(format!("x:{}", hex(b)))
}

// ---- C16 ----------------------------------------------------------------------------------

/// the exact floored quotient without any size limit (fits easily: at most 2^128/100)
fn unbounded(c: &Conv) -> u128 {
    let (a, b) = (c.n as u128 + 100, c.s as u128 + 100);
    let (mul, div) = if c.to_xorca { (b, a) } else { (a, b) };
    let (x, hi) = (c.amount() as u128, mul - 100);
    let (p, q) = (x * hi, x * 100);
    p / div + (p % div + q) / div
}

/// several conversions per request; shrinks to one
fn convs(t: bool) -> BoxedStrategy<Vec<Conv>> {
    proptest::collection::vec(conv(t), 1..40).boxed()
}
fn c16(cs: &Vec<Conv>, st: &mut Stats) -> Check {
    let name = |c: &Conv| if c.to_xorca { "convertOrcaToXorca" } else { "convertXorcaToOrca" };
    let rs = ask_many(
        cs.iter()
            .map(|c| call(name(c), vec![n(c.amount()), n(c.n), n(c.s)]))
            .collect(),
    )?;
    for (c, (got, _)) in cs.iter().zip(rs) {
        let x = c.amount();
        let what = format!("{}({x}n, {}n, {}n)", name(c), c.n, c.s);
        let empty = c.n == 0 || c.s == 0;
        match c.exact() {
            Some(w) => {
                if got.as_ref() != Ok(&n(w)) {
                    return Err(format!("{what} gives {got:?}, the program computes {w}"));
                }
                st.hit(if empty { "one-to-one" } else { "converted" });
            }
            None if empty => {
                if got.is_ok() {
                    return Err(format!("{what} gives {got:?} although undefined"));
                }
                st.hit("undefined refused");
            }
            None => {
                // the program rejects; the client may refuse or report the true quotient
                let w = unbounded(c);
                if got.is_ok() && got.as_ref() != Ok(&n(w)) {
                    return Err(format!("{what} gives {got:?}, the quotient is {w}"));
                }
                st.hit("beyond 64 bits");
            }
        }
        if c.exec {
            if let Some(r) = c.on_chain() {
                let ok = match r {
                    Ok(v) => {
                        st.hit("compared with an executed instruction");
                        got == Ok(n(v))
                    }
                    Err(6008) => true,
                    Err(_) => {
                        st.hit("program rejects a zero result");
                        got == Ok(n(0))
                    }
                };
                if !ok {
                    return Err(format!("{what} gives {got:?}, the program {r:?}"));
                }
            }
        }
        if !empty && x != 0 {
            st.nontrivial((c.to_xorca, x, c.n, c.s), || serde_json::to_value(c).unwrap());
        }
    }
    st.add("conversions", cs.len() as u64);
    Ok(())
}
fn c16k(_: &u8, st: &mut Stats) -> Check {
    let rs = ask_many(vec![
        json!({"op": "value", "name": "VIRTUAL_XORCA_SUPPLY"}),
        json!({"op": "value", "name": "VIRTUAL_NON_ESCROWED_ORCA_AMOUNT"}),
    ])?;
    for (r, _) in rs {
        // published constants are optional, their value is not
        if r != Ok(n(100)) && r != Ok(Value::Null) {
            return Err(format!("virtual offset {r:?}"));
        }
    }
    let _ = muldiv;
    st.hit("constants");
    Ok(())
}

// ---- C17 (JavaScript half) ----------------------------------------------------------------

fn c17js(c: &Pdas, st: &mut Stats) -> Check {
    let rs = ask_many(vec![
        call("findStateAddress", vec![]),
        call("findVaultAddress", vec![json!(b58(&state())), json!(b58(&TOKEN)), json!(b58(&ORCA))]),
        call("findVaultAddress", vec![json!(b58(&c.wallet)), json!(b58(&c.program)), json!(b58(&c.mint))]),
        call("findPendingWithdrawAddress", vec![json!(b58(&c.wallet)), json!(c.idx)]),
        call("findPendingWithdrawAddress", vec![json!(b58(&c.other)), json!(c.idx.wrapping_add(1))]),
        call("findPendingWithdrawAddress", vec![json!(b58(&c.other)), json!(c.idx)]),
        call("findVaultAddress", vec![json!(b58(&c.other)), json!(b58(&c.program)), json!(b58(&c.mint))]),
        call("findVaultAddress", vec![json!(b58(&c.wallet)), json!(b58(&c.program)), json!(b58(&c.other))]),
        json!({"op": "value", "name": "XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS"}),
    ])?;
    let want = [
        ("state", state_pda()),
        ("vault", vault_pda()),
        ("vault of other arguments", find_pda(&[&c.wallet, &c.program, &c.mint], &ATA).unwrap()),
        ("pending withdraw", pw_pda(&c.wallet, c.idx)),
        ("pending withdraw", pw_pda(&c.other, c.idx.wrapping_add(1))),
        ("pending withdraw", pw_pda(&c.other, c.idx)),
        ("vault of other arguments", find_pda(&[&c.other, &c.program, &c.mint], &ATA).unwrap()),
        ("vault of other arguments", find_pda(&[&c.wallet, &c.program, &c.other], &ATA).unwrap()),
    ];
    for ((what, (k, b)), (r, _)) in want.iter().zip(&rs) {
        if *r != Ok(json!([b58(k), b])) {
            return Err(format!("{what}: the JavaScript client derives {r:?}, expected {} bump {b}", b58(k)));
        }
        st.hit(&format!("JavaScript {what}, bump 255-{}", (255 - b).min(6)));
    }
    if rs[want.len()].0 != Ok(json!(b58(&PROGRAM))) {
        return Err(format!("program address constant {:?}", rs[want.len()].0));
    }
    st.hit("derived in JavaScript");
    st.nontrivial((c.wallet, c.idx, 1), || serde_json::to_value(c).unwrap());
    Ok(())
}
fn c17all(c: &[u8; 32], st: &mut Stats) -> Check {
    let rs = ask_many(
        (0..=255u8)
            .map(|i| call("findPendingWithdrawAddress", vec![json!(b58(c)), json!(i)]))
            .collect(),
    )?;
    for (i, (r, _)) in rs.iter().enumerate() {
        let (k, b) = pw_pda(c, i as u8);
        if *r != Ok(json!([b58(&k), b])) {
            return Err(format!("pending withdraw {i}: JavaScript derives {r:?}, expected {} bump {b}", b58(&k)));
        }
    }
    st.hit("all 256 indices in JavaScript");
    st.nontrivial((c, 2), || json!(c));
    Ok(())
}
fn c17_prop_js() -> Property {
    let mut p = c17_prop(vec![
        part("js-derive", 12_000, 400_000, pdas, c17js),
        part("js-all", 120, 2_000, |_| any::<[u8; 32]>().boxed(), c17all),
    ]);
    p.must_hit = &["derived and created on chain", "all 256 indices", "bump 255-3", "derived in JavaScript", "all 256 indices in JavaScript"];
    p
}

// ---- C21: instructions --------------------------------------------------------------------

const IX: [(&str, &[&str]); 5] = [
    ("Stake", &["stakerAccount", "vaultAccount", "stakerOrcaAta", "stakerXorcaAta", "xorcaMintAccount", "stateAccount", "orcaMintAccount", "tokenProgramAccount"]),
    ("Unstake", &["unstakerAccount", "stateAccount", "pendingWithdrawAccount", "unstakerXorcaAta", "xorcaMintAccount", "orcaMintAccount", "vaultAccount", "systemProgramAccount", "tokenProgramAccount"]),
    ("Withdraw", &["unstakerAccount", "stateAccount", "pendingWithdrawAccount", "unstakerOrcaAta", "vaultAccount", "orcaMintAccount", "systemProgramAccount", "tokenProgramAccount"]),
    ("Initialize", &["payerAccount", "updateAuthorityAccount", "stateAccount", "vaultAccount", "xorcaMintAccount", "orcaMintAccount", "systemProgramAccount", "tokenProgramAccount", "associatedTokenProgramAccount"]),
    ("Set", &["updateAuthorityAccount", "stateAccount"]),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct JsIx {
    op: u8,
    keys: Vec<u64>,
    amount: u64,
    signed: i64,
    idx: u8,
    na: [u8; 32],
    /// pass small integers as JavaScript numbers
    plain: bool,
    /// another program address in the config argument
    program: Option<u64>,
    /// an argument outside its range
    bad: Option<u8>,
    /// accounts dropped before parsing, data bytes cut before decoding
    drop: u8,
    cut: u8,
}
fn js_ix(_t: bool) -> BoxedStrategy<JsIx> {
    (
        (0u8..6, proptest::collection::vec(prop_oneof![1 => 0u64..4, 6 => any::<u64>()], 9)),
        args(),
        any::<bool>(),
        prop_oneof![3 => Just(None), 1 => crate::dict::with_lit(any::<u64>()).prop_map(Some)],
        prop_oneof![5 => Just(None), 1 => (0u8..4).prop_map(Some)],
        (0u8..4, prop_oneof![2 => Just(0u8), 1 => 1u8..40]),
    )
        .prop_map(|((op, keys), (amount, signed, idx, na), plain, program, bad, (drop, cut))| JsIx {
            op,
            keys,
            amount,
            signed,
            idx,
            na,
            plain,
            program,
            bad,
            drop,
            cut,
        })
        .boxed()
}
fn c21ix(c: &JsIx, st: &mut Stats) -> Check {
    let kind = c.op.min(4) as usize;
    let (name, fields) = IX[kind];
    let keys: Vec<Key> = c.keys[..n_accounts(c.op)].iter().map(|s| key_of(*s)).collect();
    let mut want = expected(c.op, &keys, c.amount, c.signed, c.idx, &c.na);
    let big = |v: i128| {
        if c.plain && v.abs() < 1 << 53 {
            json!(v as i64)
        } else {
            n(v)
        }
    };
    let mut input = Map::new();
    for (i, f) in fields.iter().enumerate() {
        let a = b58(&keys[i]);
        input.insert(f.to_string(), if want.metas[i].signer { json!({ "signer": a }) } else { json!(a) });
    }
    let args: Vec<(&str, Value)> = match c.op {
        0 => vec![("orcaStakeAmount", big(c.amount as i128))],
        1 => vec![("xorcaUnstakeAmount", big(c.amount as i128)), ("withdrawIndex", json!(c.idx))],
        2 => vec![("withdrawIndex", json!(c.idx))],
        3 => vec![("coolDownPeriodS", big(c.signed as i128))],
        4 => vec![("instructionData", json!({"__kind": "UpdateCoolDownPeriod", "newCoolDownPeriodS": big(c.signed as i128)}))],
        _ => vec![("instructionData", json!({"__kind": "UpdateUpdateAuthority", "newAuthority": b58(&c.na)}))],
    };
    for (k, v) in &args {
        input.insert(k.to_string(), v.clone());
    }
    let mut refuse = false;
    if let Some(b) = c.bad {
        let v = |neg: &str, over: &str| n(if b % 2 == 0 { neg } else { over });
        refuse = true;
        match c.op {
            0 => input.insert("orcaStakeAmount".into(), v("-1", "18446744073709551616")),
            1 if b < 2 => input.insert("xorcaUnstakeAmount".into(), v("-1", "18446744073709551616")),
            1 | 2 => input.insert("withdrawIndex".into(), json!(if b % 2 == 0 { -1 } else { 256 })),
            3 => input.insert("coolDownPeriodS".into(), v("-9223372036854775809", "9223372036854775808")),
            4 => input.insert(
                "instructionData".into(),
                json!({"__kind": "UpdateCoolDownPeriod", "newCoolDownPeriodS": v("-9223372036854775809", "9223372036854775808")}),
            ),
            _ => input.insert("instructionData".into(), json!({"__kind": "UpdateUpdateAuthority", "newAuthority": "abc"})),
        };
    }
    if let Some(p) = c.program {
        want.program = key_of(p);
    }
    let config = c.program.map(|p| json!({"programAddress": b58(&key_of(p))}));
    let metas: Vec<Value> = want
        .metas
        .iter()
        .map(|m| json!({"address": b58(&m.key), "role": m.signer as u8 * 2 + m.writable as u8}))
        .collect();
    let data = &want.data;
    let cut = &data[..data.len().saturating_sub(c.cut as usize)];
    let kept = fields.len().saturating_sub(c.drop as usize);
    let extra: Vec<Value> = if c.drop == 0 { vec![metas[0].clone()] } else { vec![] };
    let parse_accounts: Vec<Value> = metas[..kept].iter().cloned().chain(extra).collect();
    let arg_obj: Map<String, Value> = args.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    let rs = ask_many(vec![
        json!({"op": "build", "name": name, "input": input, "config": config, "parse": true}),
        call(&format!("parse{name}Instruction"), vec![json!({"programAddress": b58(&want.program), "accounts": parse_accounts, "data": bytes(cut)})]),
        json!({"op": "decode", "fn": format!("get{name}InstructionDataDecoder"), "bytes": hex(data)}),
        json!({"op": "encode", "fn": format!("get{name}InstructionDataEncoder"), "value": arg_obj}),
        json!({"op": "decode", "fn": format!("get{name}InstructionDataCodec"), "bytes": hex(data)}),
        call("identifyXorcaStakingProgramInstruction", vec![bytes(data)]),
        call("identifyXorcaStakingProgramInstruction", vec![json!({"data": bytes(data)})]),
        call(&format!("get{name}DiscriminatorBytes"), vec![]),
        json!({"op": "value", "name": format!("{}_DISCRIMINATOR", name.to_uppercase())}),
    ])?;
    let what = format!("JavaScript {name}");
    // decoded arguments, numbers normalised
    let mut dec = Map::new();
    dec.insert("discriminator".into(), json!(kind));
    match c.op {
        0 => drop(dec.insert("orcaStakeAmount".into(), n(c.amount))),
        1 => {
            dec.insert("xorcaUnstakeAmount".into(), n(c.amount));
            dec.insert("withdrawIndex".into(), json!(c.idx));
        }
        2 => drop(dec.insert("withdrawIndex".into(), json!(c.idx))),
        3 => drop(dec.insert("coolDownPeriodS".into(), n(c.signed))),
        4 => drop(dec.insert("instructionData".into(), json!({"__kind": "UpdateCoolDownPeriod", "newCoolDownPeriodS": n(c.signed)}))),
        _ => drop(dec.insert("instructionData".into(), args[0].1.clone())),
    }
    let dec = Value::Object(dec);
    let named = |ms: &[Value]| -> Value { Value::Object(fields.iter().zip(ms).map(|(f, m)| (f.to_string(), m.clone())).collect()) };
    // builder
    match (&rs[0].0, refuse) {
        (Err(_), true) => st.hit("out-of-range argument refused"),
        (Ok(v), true) => return Err(format!("{what}: out-of-range argument accepted: {}", v["ix"]["data"])),
        (Err(e), false) => return Err(format!("{what}: builder throws {e}")),
        (Ok(v), false) => {
            let ix = &v["ix"];
            if ix["programAddress"] != json!(b58(&want.program)) {
                return Err(format!("{what}: program address {}", ix["programAddress"]));
            }
            if ix["data"] != bytes(data) {
                return Err(format!("{what}: data {}, expected {}", ix["data"], bytes(data)));
            }
            let got = ix["accounts"].as_array().cloned().unwrap_or_default();
            if got.len() != metas.len() {
                return Err(format!("{what}: {} accounts, expected {}", got.len(), metas.len()));
            }
            for (i, (g, w)) in got.iter().zip(&metas).enumerate() {
                if g["address"] != w["address"] || g["role"] != w["role"] {
                    return Err(format!("{what}: account {i} ({}) is {g}, expected {w}", fields[i]));
                }
                let signer = if want.metas[i].signer { json!({"signer": w["address"]}) } else { Value::Null };
                if g["signer"] != signer {
                    return Err(format!("{what}: account {i} carries signer {}", g["signer"]));
                }
            }
            let p = &v["parsed"];
            if p["programAddress"] != json!(b58(&want.program)) || p["data"] != dec || p["accounts"] != named(&got) {
                return Err(format!("{what}: parsing the built instruction gives {p}"));
            }
            st.hit(&format!("built {name}"));
        }
    }
    // parser
    let whole = c.cut == 0 && kept == fields.len();
    match &rs[1].0 {
        Ok(p) => {
            if !whole {
                return Err(format!("{what}: parser accepts {kept} accounts and {} data bytes: {p}", cut.len()));
            }
            if p["data"] != dec || p["accounts"] != named(&metas) {
                return Err(format!("{what}: parser gives {p}"));
            }
            st.hit("parsed");
        }
        Err(e) if whole => return Err(format!("{what}: parser throws {e}")),
        Err(_) => st.hit("incomplete instruction refused by the parser"),
    }
    for (i, w) in [
        (2, dec.clone()),
        (3, bytes(data)),
        (4, dec.clone()),
        (5, json!(kind)),
        (6, json!(kind)),
        (7, bytes(&data[..1])),
        (8, json!(kind)),
    ] {
        if rs[i].0.as_ref() != Ok(&w) {
            let q = ["", "", "data decoder", "data encoder", "data codec", "identification", "identification", "discriminator bytes", "discriminator"][i];
            return Err(format!("{what}: {q} gives {:?}, expected {w}", rs[i].0));
        }
    }
    st.nontrivial(serde_json::to_string(c).unwrap(), || serde_json::to_value(c).unwrap());
    Ok(())
}

// ---- C21: account, event and enum codecs --------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct JsCodec {
    kind: u8,
    first: Option<u8>,
    b: [u8; 4],
    n: [u64; 5],
    s: i64,
    k: [[u8; 32]; 3],
    pad1: [u8; 5],
    fill: u8,
    /// keep only this share of the bytes / append some
    cut: Option<u16>,
    more: u8,
}
fn js_codec(_t: bool) -> BoxedStrategy<JsCodec> {
    (
        (0u8..12, prop_oneof![6 => Just(None), 1 => (0u8..6).prop_map(Some), 1 => any::<u8>().prop_map(Some)]),
        (any::<[u8; 4]>(), proptest::array::uniform5(edge_u64()), crate::dict::with_lit_i(any::<i64>())),
        (any::<[u8; 32]>(), any::<[u8; 32]>(), prop_oneof![3 => any::<[u8; 32]>(), 1 => Just([0u8; 32])]),
        prop_oneof![Just([0u8; 5]), any::<[u8; 5]>()],
        prop_oneof![Just(0u8), any::<u8>()],
        prop_oneof![6 => Just(None), 1 => any::<u16>().prop_map(Some), 1 => (0u16..400).prop_map(|d| Some(u16::MAX - d))],
        prop_oneof![4 => Just(0u8), 1 => 1u8..40],
    )
        .prop_map(|((kind, first), (b, n, s), (k0, k1, k2), pad1, fill, cut, more)| JsCodec {
            kind,
            first,
            b,
            n,
            s,
            k: [k0, k1, k2],
            pad1,
            fill,
            cut,
            more,
        })
        .boxed()
}

/// a layout written down by hand: field name, bytes, decoded value
struct Lay {
    name: &'static str,
    f: Vec<(&'static str, Vec<u8>, Value)>,
    /// number of valid values of the first byte (0: any)
    tags: u8,
}
fn event_lay(kind: u8, v: &[u64], s: i64, idx: u8, k: &[Key]) -> Lay {
    let u = |x: u64| (x.to_le_bytes().to_vec(), n(x));
    let key = |x: &Key| (x.to_vec(), json!(b58(x)));
    let cd = (s.to_le_bytes().to_vec(), n(s));
    let ix = (vec![idx], json!(idx));
    let (tag, fs): (&str, Vec<(&'static str, (Vec<u8>, Value))>) = match kind {
        0 => ("Stake", vec![("orcaStakeAmount", u(v[0])), ("vaultOrcaAmount", u(v[1])), ("vaultEscrowedOrcaAmount", u(v[2])), ("xorcaMintSupply", u(v[3])), ("xorcaToMint", u(v[4]))]),
        1 => ("Unstake", vec![("xorcaUnstakeAmount", u(v[0])), ("vaultOrcaAmount", u(v[1])), ("vaultEscrowedOrcaAmount", u(v[2])), ("xorcaMintSupply", u(v[3])), ("withdrawableOrcaAmount", u(v[4])), ("coolDownPeriodS", cd), ("withdrawIndex", ix)]),
        2 => ("Withdraw", vec![("vaultEscrowedOrcaAmount", u(v[0])), ("withdrawableOrcaAmount", u(v[1])), ("coolDownPeriodS", cd), ("withdrawIndex", ix)]),
        _ => ("UpdateAuthoritySet", vec![("newAuthority", key(&k[0])), ("setBy", key(&k[1]))]),
    };
    let mut f = vec![("__kind", vec![kind], json!(tag))];
    f.extend(fs.into_iter().map(|(a, (b, c))| (a, b, c)));
    Lay { name: "Event", f, tags: 4 }
}
impl JsCodec {
    fn lay(&self) -> Lay {
        let u8f = |x: u8| (vec![x], json!(x));
        let u32f = |x: u32| (x.to_le_bytes().to_vec(), json!(x));
        let u = |x: u64| (x.to_le_bytes().to_vec(), n(x));
        let key = |x: &Key| (x.to_vec(), json!(b58(x)));
        let raw = |x: Vec<u8>| {
            let v = bytes(&x);
            (x, v)
        };
        let i = |x: i64| (x.to_le_bytes().to_vec(), n(x));
        let pad = |l: usize| (0..l).map(|j| if self.fill == 0 { 0 } else { self.fill.wrapping_mul(j as u8 | 1).wrapping_add(3) }).collect::<Vec<u8>>();
        let mk = |name: &'static str, tags: u8, fs: Vec<(&'static str, (Vec<u8>, Value))>| Lay {
            name,
            tags,
            f: fs.into_iter().map(|(a, (b, c))| (a, b, c)).collect(),
        };
        match self.kind {
            0 | 6 => mk("State", 4, vec![
                ("discriminator", u8f(1)), ("padding1", raw(self.pad1.to_vec())), ("bump", u8f(self.b[0])), ("vaultBump", u8f(self.b[1])),
                ("escrowedOrcaAmount", u(self.n[0])), ("coolDownPeriodS", i(self.s)), ("updateAuthority", key(&self.k[0])), ("padding2", raw(pad(1992)))]),
            1 | 7 => mk("PendingWithdraw", 4, vec![
                ("discriminator", u8f(2)), ("padding1", raw(self.pad1.to_vec())), ("bump", u8f(self.b[0])), ("withdrawIndex", u8f(self.b[1])),
                ("unstaker", key(&self.k[0])), ("withdrawableOrcaAmount", u(self.n[0])), ("withdrawableTimestamp", i(self.s)), ("padding2", raw(pad(968)))]),
            2 => mk("TokenAccount", 0, vec![
                ("mint", key(&self.k[0])), ("owner", key(&self.k[1])), ("amount", u(self.n[0])),
                ("delegateFlag", u32f(self.n[1] as u32)), ("delegate", key(&self.k[2])), ("state", u8f(self.b[0] % 3)),
                ("isNativeFlag", u32f(self.n[2] as u32)), ("nativeAmount", u(self.n[3])), ("delegateAmount", u(self.n[4])),
                ("closeAuthorityFlag", u32f((self.n[1] >> 32) as u32)), ("closeAuthority", key(&self.k[1]))]),
            3 => mk("TokenMint", 0, vec![
                ("mintAuthorityFlag", u32f(self.n[1] as u32)), ("mintAuthority", key(&self.k[0])), ("supply", u(self.n[0])),
                ("decimals", u8f(self.b[0])), ("isInitialized", (vec![self.b[1] & 1], json!(self.b[1] & 1 == 1))),
                ("freezeAuthorityFlag", u32f(self.n[2] as u32)), ("freezeAuthority", key(&self.k[1]))]),
            4 => mk("StateUpdateInstruction", 2, vec![("__kind", (vec![0], json!("UpdateCoolDownPeriod"))), ("newCoolDownPeriodS", i(self.s))]),
            5 => mk("StateUpdateInstruction", 2, vec![("__kind", (vec![1], json!("UpdateUpdateAuthority"))), ("newAuthority", key(&self.k[0]))]),
            k => event_lay(k - 8, &self.n, self.s, self.b[0], &self.k),
        }
    }
}
fn c21codec(c: &JsCodec, st: &mut Stats) -> Check {
    let l = c.lay();
    let full: Vec<u8> = l.f.iter().flat_map(|x| x.1.clone()).collect();
    let obj: Map<String, Value> = l.f.iter().map(|x| (x.0.to_string(), x.2.clone())).collect();
    let account = matches!(c.kind, 0 | 1 | 6 | 7);
    let mut d = full.clone();
    let mut want = Some(obj.clone());
    if let (Some(t), true) = (c.first, l.tags > 0) {
        d[0] = t;
        if t >= l.tags {
            want = None;
        } else if account {
            want.as_mut().unwrap().insert("discriminator".into(), json!(t));
        } else if t != full[0] {
            d[0] = full[0];
        }
    }
    if let Some(x) = c.cut {
        d.truncate((x as usize * d.len()) >> 16);
        want = None;
    } else {
        d.extend(std::iter::repeat_n(0x5A, c.more as usize));
    }
    let addr = b58(&c.k[2]);
    let enc = json!({"address": addr, "exists": true, "data": bytes(&d), "executable": false, "lamports": "n:5", "programAddress": b58(&PROGRAM), "space": n(d.len())});
    let mut args = obj.clone();
    if account {
        args.remove("discriminator");
    }
    let mut bare = args.clone();
    bare.remove("padding1");
    bare.remove("padding2");
    let mut qs = vec![
        json!({"op": "decode", "fn": format!("get{}Decoder", l.name), "bytes": hex(&d)}),
        json!({"op": "decode", "fn": format!("get{}Codec", l.name), "bytes": hex(&d)}),
        json!({"op": "encode", "fn": format!("get{}Encoder", l.name), "value": args}),
        json!({"op": "encode", "fn": format!("get{}Codec", l.name), "value": obj}),
    ];
    if account {
        qs.extend([
            call(&format!("decode{}", l.name), vec![enc.clone()]),
            call(&format!("decode{}", l.name), vec![json!({"address": addr, "exists": false})]),
            call("identifyXorcaStakingProgramAccount", vec![bytes(&d)]),
            call("identifyXorcaStakingProgramAccount", vec![enc.clone()]),
            call(&format!("get{}Size", l.name), vec![]),
            json!({"op": "encode", "fn": format!("get{}Encoder", l.name), "value": bare}),
            call(&format!("get{}DiscriminatorBytes", l.name), vec![]),
            json!({"op": "size", "fn": format!("get{}Decoder", l.name)}),
        ]);
    } else if l.tags > 0 {
        // data-enum helpers
        let f = if l.name == "Event" { "event" } else { "stateUpdateInstruction" };
        let is = if l.name == "Event" { "isEvent" } else { "isStateUpdateInstruction" };
        let kinds: &[&str] = if l.name == "Event" { &["Stake", "Unstake", "Withdraw", "UpdateAuthoritySet"] } else { &["UpdateCoolDownPeriod", "UpdateUpdateAuthority"] };
        let mut body = obj.clone();
        body.remove("__kind");
        qs.push(call(f, vec![obj["__kind"].clone(), Value::Object(body)]));
        for k in kinds {
            qs.push(call(is, vec![json!(k), Value::Object(obj.clone())]));
        }
    }
    let rs = ask_many(qs)?;
    let what = format!("JavaScript {}", l.name);
    for r in [&rs[0].0, &rs[1].0] {
        match (r, &want) {
            (Ok(v), Some(w)) if *v == Value::Object(w.clone()) => st.hit(&format!("{} decoded", l.name)),
            (Err(_), None) => st.hit(&format!("{} refused", l.name)),
            (g, w) => return Err(format!("{what}: {} bytes starting {:?} decode to {}, stored {}", d.len(), d.first(), short(g), short(w))),
        }
    }
    for r in [&rs[2].0, &rs[3].0] {
        if *r != Ok(bytes(&full)) {
            return Err(format!("{what}: encodes to {}, expected {}", short(r), hex(&full)));
        }
    }
    if account {
        match (&rs[4].0, &want) {
            (Ok(v), Some(w)) if v["data"] == Value::Object(w.clone()) && v["address"] == json!(addr) => {}
            (Err(_), None) => {}
            (g, _) => return Err(format!("{what}: account decoding gives {}", short(g))),
        }
        if rs[5].0 != Ok(json!({"address": addr, "exists": false})) {
            return Err(format!("{what}: missing account decodes to {:?}", rs[5].0));
        }
        let id = match d.first() {
            Some(2) => Some(json!(0)),
            Some(1) => Some(json!(1)),
            _ => None,
        };
        for r in [&rs[6].0, &rs[7].0] {
            if r.as_ref().ok() != id.as_ref() {
                return Err(format!("account with first byte {:?} identified as {r:?}", d.first()));
            }
        }
        if rs[8].0 != Ok(json!(full.len())) || rs[11].0 != Ok(json!(full.len())) {
            return Err(format!("{what}: size {:?} / {:?}, stored accounts have {}", rs[8].0, rs[11].0, full.len()));
        }
        let mut z = full.clone();
        z[1..6].fill(0);
        z[56..].fill(0);
        if rs[9].0 != Ok(bytes(&z)) {
            return Err(format!("{what}: without padding arguments encodes to {}", short(&rs[9].0)));
        }
        if rs[10].0 != Ok(bytes(&full[..1])) {
            return Err(format!("{what}: discriminator bytes {:?}", rs[10].0));
        }
    } else if l.tags > 0 {
        if rs[4].0 != Ok(Value::Object(obj.clone())) {
            return Err(format!("{what}: helper builds {:?}", rs[4].0));
        }
        for (i, (r, _)) in rs[5..].iter().enumerate() {
            if *r != Ok(json!(i == full[0] as usize)) {
                return Err(format!("{what}: variant {} tested against variant {i}: {r:?}", full[0]));
            }
        }
    }
    st.nontrivial(serde_json::to_string(c).unwrap(), || serde_json::to_value(c).unwrap());
    Ok(())
}
fn short(v: &impl std::fmt::Debug) -> String {
    let s = format!("{v:?}");
    if s.len() <= 900 {
        s
    } else {
        let mut i = 900;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        format!("{}…", &s[..i])
    }
}

/// everything the program writes and emits in a history, read by the JavaScript client
fn c21h(h: &Hist, st: &mut Stats) -> Check {
    let mut qs: Vec<Value> = vec![];
    let mut want: Vec<(String, Value, Vec<u8>)> = vec![];
    let mut seen: std::collections::HashSet<Vec<u8>> = Default::default();
    crate::p_hist::drive(h, st, &mut |r, s, _| {
        for (_, e) in &s.res.events {
            let k = e.first().copied().unwrap_or(255);
            let u = |i: usize| le64(e, 1 + 8 * i);
            let l = match (k, e.len()) {
                (0, 41) => event_lay(0, &[u(0), u(1), u(2), u(3), u(4)], 0, 0, &[]),
                (1, 50) => event_lay(1, &[u(0), u(1), u(2), u(3), u(4)], u(5) as i64, e[49], &[]),
                (2, 26) => event_lay(2, &[u(0), u(1)], u(2) as i64, e[25], &[]),
                (3, 65) => event_lay(3, &[], 0, 0, &[e[1..33].try_into().unwrap(), e[33..65].try_into().unwrap()]),
                _ => return Err(format!("emitted event {e:?} has no documented layout")),
            };
            if seen.insert(e.clone()) {
                let v: Map<String, Value> = l.f.iter().map(|x| (x.0.to_string(), x.2.clone())).collect();
                want.push(("Event".into(), Value::Object(v), e.clone()));
            }
        }
        for (k, a) in r.bank.accts.iter().filter(|(_, a)| a.owner == PROGRAM) {
            let d = &a.data;
            if !seen.insert(d.clone()) {
                continue;
            }
            let key = |o: usize| json!(b58(&d[o..o + 32].try_into().unwrap()));
            let (t, v) = if *k == state() {
                ("State", json!({"discriminator": 1, "padding1": bytes(&d[1..6]), "bump": d[6], "vaultBump": d[7], "escrowedOrcaAmount": n(le64(d, 8)),
                    "coolDownPeriodS": n(le64(d, 16) as i64), "updateAuthority": key(24), "padding2": bytes(&d[56..])}))
            } else {
                ("PendingWithdraw", json!({"discriminator": 2, "padding1": bytes(&d[1..6]), "bump": d[6], "withdrawIndex": d[7], "unstaker": key(8),
                    "withdrawableOrcaAmount": n(le64(d, 40)), "withdrawableTimestamp": n(le64(d, 48) as i64), "padding2": bytes(&d[56..])}))
            };
            want.push((t.into(), v, d.clone()));
        }
        Ok(())
    })?;
    for (t, v, d) in &want {
        qs.push(json!({"op": "decode", "fn": format!("get{t}Decoder"), "bytes": hex(d)}));
        qs.push(json!({"op": "encode", "fn": format!("get{t}Encoder"), "value": v}));
    }
    let rs = ask_many(qs)?;
    for (i, (t, v, d)) in want.iter().enumerate() {
        if rs[2 * i].0.as_ref() != Ok(v) {
            return Err(format!("{t} written by the program decodes to {}, stored {}", short(&rs[2 * i].0), short(v)));
        }
        if rs[2 * i + 1].0 != Ok(bytes(d)) {
            return Err(format!("{t} written by the program re-encodes to {}", short(&rs[2 * i + 1].0)));
        }
    }
    st.add("program output read by the JavaScript client", want.len() as u64);
    Ok(())
}

// ---- C21: errors, enumerations, identification ---------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct JsErr {
    code: u32,
    programs: Vec<bool>,
    index: u8,
    want: Option<u32>,
    custom: bool,
    data: Vec<u8>,
}
fn js_err(_t: bool) -> BoxedStrategy<JsErr> {
    let code = || prop_oneof![4 => 5998u32..6022, 1 => any::<u32>()];
    (
        code(),
        proptest::collection::vec(any::<bool>(), 1..4),
        0u8..5,
        prop_oneof![Just(None), code().prop_map(Some)],
        any::<u8>().prop_map(|b| b > 20),
        prop_oneof![3 => proptest::collection::vec(0u8..8, 0..4), 1 => proptest::collection::vec(any::<u8>(), 0..60)],
    )
        .prop_map(|(code, programs, index, want, custom, data)| JsErr {
            code,
            programs,
            index,
            want,
            custom,
            data,
        })
        .boxed()
}
fn snake(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_uppercase() && i > 0 {
            o.push('_');
        }
        o.push(c.to_ascii_uppercase());
    }
    o
}
fn c21err(c: &JsErr, st: &mut Stats) -> Check {
    use num_traits::FromPrimitive;
    let name = c.code.checked_sub(6000).and_then(|i| NAMES.get(i as usize));
    let want = c.want.or(Some(c.code)).filter(|_| c.want.is_some());
    let rs = ask_many(vec![
        json!({"op": "value", "name": format!("XORCA_STAKING_PROGRAM_ERROR__{}", snake(name.unwrap_or(&"Nothing")))}),
        call("getXorcaStakingProgramErrorMessage", vec![json!(c.code)]),
        json!({"op": "isError", "kind": if c.custom { "custom" } else { "other" }, "index": c.index, "code": c.code,
            "programs": c.programs.iter().map(|p| if *p { b58(&PROGRAM) } else { b58(&TOKEN) }).collect::<Vec<_>>(), "want": want}),
        json!({"op": "isError", "kind": "custom", "index": 0, "code": c.code, "programs": [b58(&PROGRAM)], "want": c.code}),
        call("identifyXorcaStakingProgramInstruction", vec![bytes(&c.data)]),
        call("identifyXorcaStakingProgramAccount", vec![bytes(&c.data)]),
        json!({"op": "value", "name": "AccountDiscriminator"}),
        json!({"op": "value", "name": "TokenAccountState"}),
        json!({"op": "value", "name": "XorcaStakingProgramInstruction"}),
        json!({"op": "value", "name": "XorcaStakingProgramAccount"}),
        json!({"op": "value", "name": "STATE_DISCRIMINATOR"}),
        json!({"op": "value", "name": "PENDING_WITHDRAW_DISCRIMINATOR"}),
    ])?;
    match name {
        Some(n) => {
            if rs[0].0 != Ok(json!(c.code)) {
                return Err(format!("error constant for {n} is {:?}, the program uses {}", rs[0].0, c.code));
            }
            let e = xorca::XorcaStakingProgramError::from_u32(c.code).ok_or("Rust client does not know the code")?;
            if rs[1].0 != Ok(json!(e.to_string())) {
                return Err(format!("message of {} is {:?}, in the Rust client {:?}", c.code, rs[1].0, e.to_string()));
            }
            st.hit("documented error");
        }
        None => {
            if matches!(&rs[1].0, Ok(v) if !v.is_null()) {
                return Err(format!("unknown error {} has message {:?}", c.code, rs[1].0));
            }
            st.hit("unknown error");
        }
    }
    let is = c.custom && c.programs.get(c.index as usize) == Some(&true) && want.is_none_or(|w| w == c.code);
    if rs[2].0 != Ok(json!(is)) {
        return Err(format!("error recognition gives {:?} for {c:?}", rs[2].0));
    }
    if is {
        st.hit("error recognised");
    }
    if rs[3].0 != Ok(json!(true)) {
        return Err(format!("error {} of the program not recognised", c.code));
    }
    let id = c.data.first().filter(|b| **b < 5).map(|b| json!(b));
    if rs[4].0.as_ref().ok() != id.as_ref() {
        return Err(format!("instruction data {:?} identified as {:?}", c.data, rs[4].0));
    }
    let id = match c.data.first() {
        Some(1) => Some(json!(1)),
        Some(2) => Some(json!(0)),
        _ => None,
    };
    if rs[5].0.as_ref().ok() != id.as_ref() {
        return Err(format!("account data {:?} identified as {:?}", c.data, rs[5].0));
    }
    for (i, names) in [
        (6usize, &["Uninitialized", "State", "PendingWithdraw", "Closed"][..]),
        (7, &["Uninitialized", "Initialized", "Frozen"]),
        (8, &["Stake", "Unstake", "Withdraw", "Initialize", "Set"]),
        (9, &["PendingWithdraw", "State"]),
    ] {
        for (v, nm) in names.iter().enumerate() {
            if rs[i].0.as_ref().map(|e| &e[*nm]) != Ok(&json!(v)) {
                return Err(format!("enumeration value {nm} in {:?}, expected {v}", rs[i].0));
            }
        }
    }
    if rs[10].0 != Ok(json!(1)) || rs[11].0 != Ok(json!(2)) {
        return Err(format!("account discriminators {:?} {:?}", rs[10].0, rs[11].0));
    }
    st.nontrivial((c.code, &c.programs, c.index, c.want, c.custom, &c.data), || serde_json::to_value(c).unwrap());
    Ok(())
}

// ---- C21: fetch helpers -------------------------------------------------------------------

fn claims(staker: u8) -> &'static Vec<(Key, u8)> {
    static C: [OnceLock<Vec<(Key, u8)>>; 6] = [const { OnceLock::new() }; 6];
    C[staker as usize % 6].get_or_init(|| (0..=255u8).map(|i| pw_pda(&ledger::staker_key(staker), i)).collect())
}
fn ctx() -> ledger::Ctx {
    ledger::Ctx {
        program: PROGRAM,
        token: TOKEN,
        orca: ORCA,
        xorca: XORCA,
        state: state_pda(),
        vault: vault_pda(),
        claims,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct JsFetch {
    l: ledger::Ledger,
    /// a limit that is not an integer in 0..=255
    odd: Option<u8>,
}
fn js_fetch(t: bool) -> BoxedStrategy<JsFetch> {
    (ledger::ledger(t), prop_oneof![12 => Just(None), 1 => (0u8..6).prop_map(Some)])
        .prop_map(|(l, odd)| JsFetch { l, odd })
        .boxed()
}

/// what a helper may answer
enum Want {
    Is(Value),
    Fail,
    /// either is accepted
    IsOrFail(Value),
}
fn verdict(what: &str, (got, refused): &Res, w: Want, st: &mut Stats) -> Check {
    if *refused {
        st.hit("node error");
        return match got {
            Err(_) => Ok(()),
            Ok(g) => Err(format!("{what}: the node failed a request but the helper returned {}", short(g))),
        };
    }
    match (got, w) {
        (Ok(g), Want::Is(v) | Want::IsOrFail(v)) => {
            if *g != v {
                return Err(format!("{what}: returned {}, on chain {}", short(g), short(&v)));
            }
            st.hit(&format!("{what} returned"));
        }
        (Err(e), Want::Is(v)) => return Err(format!("{what}: failed ({e}), on chain {}", short(&v))),
        (Err(_), _) => st.hit(&format!("{what} refused")),
        (Ok(g), Want::Fail) => return Err(format!("{what}: returned {} although there is nothing valid to report", short(g))),
    }
    Ok(())
}

fn c21f(c: &JsFetch, st: &mut Stats) -> Check {
    use ledger::Shape;
    let (l, x) = (&c.l, ctx());
    let accts = l.accounts(&x);
    let m: Map<String, Value> = accts
        .iter()
        .map(|(k, a)| (b58(k), json!({"owner": b58(&a.owner), "lamports": a.lamports, "data": hex(&a.data)})))
        .collect();
    let led = json!({"accounts": m, "failAfter": l.fail_after, "limit": l.node_limit});
    let f = |name: &str, args: Vec<Value>| json!({"op": "fetch", "fn": name, "ledger": led, "args": args});
    let limit = match c.odd {
        None => l.limit.map(|v| json!(v)),
        Some(k) => Some(json!(["f:-1", "f:256", "f:2.5", "f:NaN", "f:1e9", "f:-0.5"][k as usize % 6])),
    };
    let mut pargs = vec![json!(b58(&ledger::staker_key(l.staker)))];
    pargs.extend(limit);
    let here: HashMap<Key, &ledger::Claim> = l.claims.iter().map(|c| (claims(c.staker)[c.idx as usize].0, c)).collect();
    let mut ks: Vec<Key> = l.claims.iter().map(|c| claims(c.staker)[c.idx as usize].0).collect();
    ks.dedup();
    let absent = [0xABu8; 32];
    let at = l.extras as usize % (ks.len() + 1);
    let mut ks2 = ks.clone();
    ks2.insert(at, absent);
    let addrs = |v: &[Key]| json!(v.iter().map(b58).collect::<Vec<_>>());
    let lim = l.limit.unwrap_or(15);
    let probe = claims(l.staker)[lim as usize].0;
    let rs = ask_many(vec![
        f("fetchStateAccountData", vec![]),
        f("fetchStateAccountCoolDownPeriodS", vec![]),
        f("fetchVaultState", vec![]),
        f("fetchXorcaMintSupply", vec![]),
        f("fetchStakingExchangeRate", vec![]),
        f("fetchPendingWithdrawsForStaker", pargs),
        f("fetchState", vec![json!(b58(&x.state.0))]),
        f("fetchMaybeState", vec![json!(b58(&x.state.0))]),
        f("fetchAllMaybeState", vec![addrs(&[absent, x.state.0])]),
        f("fetchAllState", vec![addrs(&[x.state.0, absent])]),
        f("fetchPendingWithdraw", vec![json!(b58(&probe))]),
        f("fetchMaybePendingWithdraw", vec![json!(b58(&probe))]),
        f("fetchAllPendingWithdraw", vec![addrs(&ks)]),
        f("fetchAllPendingWithdraw", vec![addrs(&ks2)]),
        f("fetchAllMaybePendingWithdraw", vec![addrs(&ks2)]),
    ])?;

    let good = |s: &Shape| *s == Shape::Good;
    let img = |k: &Key| -> &[u8] { accts.iter().find(|(a, _)| a == k).map(|(_, a)| &a.data[..]).unwrap_or(&[]) };
    let sv = || {
        let d = img(&x.state.0);
        json!({"discriminator": 1, "padding1": bytes(&[0; 5]), "bump": x.state.1, "vaultBump": x.vault.1, "escrowedOrcaAmount": n(l.escrow),
            "coolDownPeriodS": n(l.cooldown), "updateAuthority": b58(&l.auth), "padding2": bytes(&d[56..])})
    };
    let st_ok = good(&l.state);
    let need = |ok: bool, v: Value| if ok { Want::Is(v) } else { Want::Fail };
    verdict("state", &rs[0], if st_ok { Want::Is(sv()) } else { Want::Fail }, st)?;
    verdict("cooldown", &rs[1], need(st_ok, n(l.cooldown)), st)?;
    // a token account not yet initialised may be refused or read as it is
    let blank = l.vault == Shape::Disc(0);
    let soft = |w: Want| match w {
        Want::Is(v) if blank => Want::IsOrFail(v),
        w => w,
    };
    let vault_ok = blank || good(&l.vault);
    verdict("vault", &rs[2], soft(need(vault_ok,
        json!({"address": b58(&x.vault.0), "owner": b58(&x.state.0), "mint": b58(&ORCA), "amount": n(l.amount)}))), st)?;
    // the initialised byte of a mint may or may not be judged by the token library
    let mint = |v: Value| match l.mint {
        Shape::Good => Want::Is(v),
        Shape::Disc(_) => Want::IsOrFail(v),
        _ => Want::Fail,
    };
    verdict("supply", &rs[3], mint(n(l.supply)), st)?;
    let rate = json!({"numerator": n(l.amount as i128 - l.escrow as i128), "denominator": n(l.supply)});
    let w = if !st_ok || !vault_ok {
        Want::Fail
    } else if l.amount < l.escrow {
        st.hit("insolvent ledger");
        match l.mint {
            Shape::Good | Shape::Disc(_) => Want::IsOrFail(rate),
            _ => Want::Fail,
        }
    } else {
        soft(mint(rate))
    };
    verdict("rate", &rs[4], w, st)?;

    let pv = |c: &ledger::Claim| {
        json!({"discriminator": 2, "padding1": bytes(&[0; 5]), "bump": c.bump, "withdrawIndex": c.idx, "unstaker": b58(&ledger::staker_key(c.staker)),
            "withdrawableOrcaAmount": n(c.amount), "withdrawableTimestamp": n(c.ts), "padding2": bytes(&[0; 968])})
    };
    let mut list = vec![];
    let mut malformed = false;
    for i in 0..lim {
        if let Some(c) = here.get(&claims(l.staker)[i as usize].0) {
            match c.shape {
                Shape::Good => list.push(pv(c)),
                Shape::Lamports | Shape::Absent => st.hit("claim address holding only lamports"),
                _ => malformed = true,
            }
        }
    }
    let some = list.len() > 1;
    let w = if c.odd.is_some() {
        st.hit("limit outside the range");
        Want::Fail
    } else if malformed {
        // never written by the program: it may be reported or left out, the others must be exact
        st.hit("malformed claim");
        Want::IsOrFail(json!(list))
    } else {
        Want::Is(json!(list))
    };
    verdict("pending withdrawals", &rs[5], w, st)?;

    // account-level helpers: compare address and data
    let strip = |r: &Res| -> Res {
        fn one(v: &Value) -> Value {
            if v["exists"] == json!(false) {
                json!({"address": v["address"], "exists": false})
            } else {
                json!({"address": v["address"], "data": v["data"]})
            }
        }
        let v = r.0.clone().map(|v| match v.as_array() {
            Some(a) => json!(a.iter().map(one).collect::<Vec<_>>()),
            None => one(&v),
        });
        (v, r.1)
    };
    let have = |k: &Key, v: Value| json!({"address": b58(k), "data": v});
    let none = |k: &Key| json!({"address": b58(k), "exists": false});
    let sk = x.state.0;
    verdict("fetchState", &strip(&rs[6]), if st_ok { Want::Is(have(&sk, sv())) } else { Want::Fail }, st)?;
    let ms = match l.state {
        Shape::Good => Some(have(&sk, sv())),
        Shape::Absent => Some(none(&sk)),
        _ => None,
    };
    verdict("fetchMaybeState", &strip(&rs[7]), ms.clone().map_or(Want::Fail, Want::Is), st)?;
    verdict("fetchAllMaybeState", &strip(&rs[8]), ms.map_or(Want::Fail, |m| Want::Is(json!([none(&absent), m]))), st)?;
    verdict("fetchAllState", &strip(&rs[9]), Want::Fail, st)?;
    let (one, maybe) = match here.get(&probe) {
        None => (None, Some(none(&probe))),
        Some(c) if c.shape == Shape::Good => (Some(have(&probe, pv(c))), Some(have(&probe, pv(c)))),
        Some(_) => (None, None),
    };
    verdict("fetchPendingWithdraw", &strip(&rs[10]), one.map_or(Want::Fail, Want::Is), st)?;
    verdict("fetchMaybePendingWithdraw", &strip(&rs[11]), maybe.map_or(Want::Fail, Want::Is), st)?;
    let bad = ks.iter().any(|k| here[k].shape != Shape::Good);
    let all: Vec<Value> = if bad { vec![] } else { ks.iter().map(|k| have(k, pv(here[k]))).collect() };
    let mut all2 = all.clone();
    all2.insert(at.min(all2.len()), none(&absent));
    verdict("fetchAllPendingWithdraw", &strip(&rs[12]), need(!bad, json!(all)), st)?;
    verdict("fetchAllPendingWithdraw, one absent", &strip(&rs[13]), Want::Fail, st)?;
    verdict("fetchAllMaybePendingWithdraw", &strip(&rs[14]), need(!bad, json!(all2)), st)?;
    if some || (st_ok && good(&l.vault) && good(&l.mint) && l.amount > l.escrow && l.supply > 0) {
        st.nontrivial(serde_json::to_string(c).unwrap(), || serde_json::to_value(c).unwrap());
    }
    Ok(())
}

// ---- C25: the same results in a browser -----------------------------------------------------

fn web<C: Serialize>(c: &C, st: &mut Stats, f: fn(&C, &mut Stats) -> Check) -> Check {
    DIFF.with(|d| *d.borrow_mut() = Some((vec![], 0)));
    // whether the results are right is the business of C16, C17 and C21
    let right = f(c, st);
    let (diff, n) = DIFF.with(|d| d.borrow_mut().take()).unwrap_or_default();
    if right.is_err() {
        st.hit("wrong in both environments");
    }
    if n > 0 {
        st.hit("answers compared");
    }
    match diff.into_iter().next() {
        None => Ok(()),
        Some(d) => Err(d),
    }
}
fn w_convert(c: &Vec<Conv>, st: &mut Stats) -> Check {
    web(c, st, c16)
}
fn w_derive(c: &Pdas, st: &mut Stats) -> Check {
    web(c, st, c17js)
}
fn w_ix(c: &JsIx, st: &mut Stats) -> Check {
    web(c, st, c21ix)
}
fn w_codec(c: &JsCodec, st: &mut Stats) -> Check {
    web(c, st, c21codec)
}
fn w_hist(c: &Hist, st: &mut Stats) -> Check {
    web(c, st, c21h)
}
fn w_err(c: &JsErr, st: &mut Stats) -> Check {
    web(c, st, c21err)
}
fn w_fetch(c: &JsFetch, st: &mut Stats) -> Check {
    web(c, st, c21f)
}

const JS_TRUST: &[&str] = &[
    "the client runs on a stand-in for @solana/kit and @solana-program/token (the real packages are not installed), written from their documented behaviour",
    "TypeScript types are erased by the bundler; only run-time behaviour is judged",
];

pub fn props() -> Vec<Property> {
    vec![
        c17_prop_js(),
        Property {
            id: "C16",
            rule: "amount, backing and supply over all of u64 (log-uniform, edges, exact multiples +-2, results around 2^64, products around 2^128), both directions; a share is also executed by the real program; one case is a batch of 1-39 conversions; non-trivial = non-empty pool and non-zero amount; distinct by (direction, amount, backing, supply)",
            parts: vec![
                part("js-convert", 120_000, 1_500_000, convs, c16),
                part("js-constants", 8, 8, |_| any::<u8>().boxed(), c16k),
            ],
            must_hit: &["converted", "one-to-one", "undefined refused", "beyond 64 bits", "compared with an executed instruction", "program rejects a zero result"],
            assumptions: TRUST,
        },
        Property {
            id: "C21",
            rule: "every instruction with arbitrary arguments (also out of range), keys and program address, built, parsed, cut and identified; account, token, event and enum images with arbitrary fields, tags, padding, truncation; everything the program writes and emits in histories; error codes; fetch helpers on generated ledgers with node faults; distinct by full case",
            parts: vec![
                part("js-instructions", 60_000, 3_000_000, js_ix, c21ix),
                part("js-codecs", 60_000, 3_000_000, js_codec, c21codec),
                part("js-history", 3_000, 120_000, |t| hist(BALANCED, if t { 4..60 } else { 4..30 }), c21h),
                part("js-errors", 30_000, 1_000_000, js_err, c21err),
                part("js-fetch", 20_000, 800_000, js_fetch, c21f),
            ],
            must_hit: &["built Stake", "built Unstake", "built Withdraw", "built Initialize", "built Set", "out-of-range argument refused", "parsed", "incomplete instruction refused by the parser",
                "State decoded", "PendingWithdraw decoded", "Event decoded", "Event refused", "TokenAccount decoded", "TokenMint decoded", "program output read by the JavaScript client",
                "documented error", "unknown error", "error recognised", "rate returned", "rate refused", "pending withdrawals returned", "node error", "claim address holding only lamports", "limit outside the range"],
            assumptions: JS_TRUST,
        },
        Property {
            id: "C25",
            rule: "every generated request of C16, C17 and C21 put to the client twice, in Node and in an environment without Buffer, process, require and Node's modules; the two answers compared; distinct and non-trivial as for those properties",
            parts: vec![
                part("web-convert", 8_000, 300_000, convs, w_convert),
                part("web-derive", 4_000, 100_000, pdas, w_derive),
                part("web-instructions", 15_000, 600_000, js_ix, w_ix),
                part("web-codecs", 15_000, 600_000, js_codec, w_codec),
                part("web-history", 600, 20_000, |t| hist(BALANCED, if t { 4..60 } else { 4..30 }), w_hist),
                part("web-errors", 8_000, 200_000, js_err, w_err),
                part("web-fetch", 6_000, 200_000, js_fetch, w_fetch),
            ],
            must_hit: &["answers compared", "converted", "derived in JavaScript", "built Stake", "State decoded", "documented error", "rate returned", "pending withdrawals returned"],
            assumptions: JS_TRUST,
        },
    ]
}
