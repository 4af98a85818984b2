//! Operator scripts of /repo/ts-scripts (C23: transactions they send, C24: figures they print).
//! js/build.sh bundles them; js/scripts.ts runs them over stand-ins for files, process and node,
//! and every transaction they send is executed here.

use crate::dict::lit;
use crate::hist::*;
use crate::p_client::pk;
use crate::p_hist::{part, TRUST};
use crate::runner::*;
use crate::spec::*;
use crate::svm::*;
use crate::world::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

// ---- the node process ---------------------------------------------------------------------

struct Node {
    child: Child,
    tx: ChildStdin,
    rx: BufReader<ChildStdout>,
}
impl Drop for Node {
    fn drop(&mut self) {
        self.child.kill().ok();
        self.child.wait().ok();
    }
}
impl Node {
    fn spawn() -> Node {
        let bundle = std::env::var("XH_SCRIPTS").unwrap_or_else(|_| format!("{}/target/js/scripts.mjs", verif()));
        let mut child = match Command::new("node")
            .arg("--max-old-space-size=1024")
            .arg(&bundle)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
        {
            Ok(c) => c,
            Err(e) => {
                eprintln!("cannot start node: {e}");
                std::process::exit(2);
            }
        };
        let tx = child.stdin.take().unwrap();
        let rx = BufReader::new(child.stdout.take().unwrap());
        let mut n = Node { child, tx, rx };
        let zero = "00".repeat(32);
        if n.put(&json!({"op": "keys", "seeds": [zero]})).and_then(|()| n.get()).is_err() {
            eprintln!("the script driver does not load");
            std::process::exit(2);
        }
        n
    }
    fn put(&mut self, q: &Value) -> Result<(), String> {
        let mut line = q.to_string();
        line.push('\n');
        self.tx
            .write_all(line.as_bytes())
            .and_then(|()| self.tx.flush())
            .map_err(|_| "the script process ended".to_string())
    }
    fn get(&mut self) -> Result<Value, String> {
        let mut s = String::new();
        match self.rx.read_line(&mut s) {
            Ok(n) if n > 0 => serde_json::from_str(&s).map_err(|e| e.to_string()),
            _ => Err("the script process ended".into()),
        }
    }
}
thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
    static KEYS: RefCell<HashMap<(u8, u8), (Key, Vec<u8>)>> = RefCell::new(HashMap::new());
}
fn with_node<T>(f: impl FnOnce(&mut Node) -> Result<T, String>) -> Result<T, String> {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        let r = f(n.get_or_insert_with(Node::spawn));
        if r.is_err() {
            *n = None;
        }
        r
    })
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
fn b58(k: &Key) -> String {
    pk(k).to_string()
}
fn unb58(s: &Value) -> Option<Key> {
    s.as_str()?.parse::<solana_program::pubkey::Pubkey>().ok().map(|p| p.to_bytes())
}
fn keypair_of(seed: &[u8; 32]) -> Result<Vec<u8>, String> {
    let v = with_node(|n| n.put(&json!({"op": "keys", "seeds": [hex(seed)]})).and_then(|()| n.get()))?;
    let b = unhex(v["ok"][0].as_str().unwrap_or(""));
    if b.len() != 64 {
        return Err(format!("script driver: {v}"));
    }
    Ok(b)
}
/// A wallet with a known secret key.
fn keypair(salt: u8, i: u8) -> Result<(Key, Vec<u8>), String> {
    if let Some(k) = KEYS.with(|m| m.borrow().get(&(salt, i)).cloned()) {
        return Ok(k);
    }
    let seed = solana_program::hash::hashv(&[b"script", &[salt, i]]).to_bytes();
    let sk = keypair_of(&seed)?;
    let r: (Key, Vec<u8>) = (sk[32..].try_into().unwrap(), sk);
    KEYS.with(|m| m.borrow_mut().insert((salt, i), r.clone()));
    Ok(r)
}

fn accounts_json(b: &Bank) -> Value {
    let mut m = Map::new();
    for (k, a) in &b.accts {
        if !a.executable {
            m.insert(b58(k), json!({"lamports": a.lamports.to_string(), "data": hex(&a.data), "owner": b58(&a.owner)}));
        }
    }
    Value::Object(m)
}

struct Ran {
    code: i64,
    out: Vec<String>,
    refused: bool,
    sent: u64,
    executed: u64,
    written: Map<String, Value>,
    uploads: Vec<Value>,
    bank: Bank,
}
fn run_script(
    name: &str,
    args: &[String],
    files: &Map<String, Value>,
    bank: &Bank,
    fail_after: Option<(u8, u8)>,
    now_ms: i64,
) -> Result<Ran, String> {
    run_with(name, args, files, bank, fail_after, now_ms, json!({}))
}
fn run_with(
    name: &str,
    args: &[String],
    files: &Map<String, Value>,
    bank: &Bank,
    fail_after: Option<(u8, u8)>,
    now_ms: i64,
    more: Value,
) -> Result<Ran, String> {
    with_node(|n| {
        let mut q = json!({
            "script": name, "args": args, "accounts": accounts_json(bank), "files": files,
            "failAfter": fail_after.map(|x| x.0), "failKind": fail_after.map(|x| x.1), "nowMs": now_ms,
        });
        for (k, v) in more.as_object().into_iter().flatten() {
            q[k] = v.clone();
        }
        n.put(&q)?;
        let mut bank = bank.clone();
        let mut executed = 0;
        for _ in 0..40 {
            let v = n.get()?;
            if let Some(tx) = v.get("tx") {
                let err = match ixs_of(tx) {
                    Some(ixs) => match process_tx(&env(), &mut bank, &ixs).res {
                        Ok(()) => {
                            executed += 1;
                            None
                        }
                        Err((i, IxErr::Custom(c))) => {
                            Some(format!("Error processing Instruction {i}: custom program error: 0x{c:x}"))
                        }
                        Err((i, e)) => Some(format!("Error processing Instruction {i}: {e:?}")),
                    },
                    None => Some("malformed transaction".into()),
                };
                n.put(&json!({"reply": {"err": err, "accounts": accounts_json(&bank)}}))?;
                continue;
            }
            let o = &v["ok"];
            let Some(code) = o["code"].as_i64() else {
                return Err(format!("script driver: {v}"));
            };
            return Ok(Ran {
                code,
                out: o["out"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default(),
                refused: o["refused"].as_bool().unwrap_or(false),
                sent: o["sent"].as_u64().unwrap_or(0),
                executed,
                written: o["written"].as_object().cloned().unwrap_or_default(),
                uploads: o["uploads"].as_array().cloned().unwrap_or_default(),
                bank,
            });
        }
        Err("the script sends transactions without end".into())
    })
}
fn ixs_of(tx: &Value) -> Option<Vec<Ix>> {
    let payer = unb58(&tx["feePayer"])?;
    tx["instructions"]
        .as_array()?
        .iter()
        .map(|i| {
            Some(Ix {
                program: unb58(&i["program"])?,
                metas: i["keys"]
                    .as_array()?
                    .iter()
                    .map(|k| {
                        let key = unb58(&k["key"])?;
                        Some(Meta {
                            key,
                            signer: k["signer"].as_bool()? || key == payer,
                            writable: k["writable"].as_bool()? || key == payer,
                        })
                    })
                    .collect::<Option<Vec<_>>>()?,
                data: unhex(i["data"].as_str()?),
            })
        })
        .collect()
}

// ---- arguments ----------------------------------------------------------------------------

/// A number as typed on a command line.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Num {
    Abs(u64),
    /// a figure of the case: the balance, supply ... plus or minus a little
    Fig(u8, i8),
    /// a share of the balance
    Share(u16),
    /// a spelling other than plain digits
    Odd(u8, u64),
}
#[derive(Clone, Debug, PartialEq)]
enum Means {
    /// plain digits
    Plain(u128),
    /// a spelling that has this value; may be refused
    May(i128),
    /// no whole number
    Nothing,
}
impl Num {
    fn text(&self, figs: &[u64]) -> (String, Means) {
        let plain = |v: u64| (v.to_string(), Means::Plain(v as u128));
        match *self {
            Num::Abs(v) => plain(v),
            Num::Fig(i, d) => plain(figs[i as usize % figs.len()].saturating_add_signed(d as i64)),
            Num::Share(x) => plain((figs[0] as u128 * x as u128 >> 16) as u64),
            Num::Odd(form, v) => {
                let no = |s: String| (s, Means::Nothing);
                let may = |s: String, v: i128| (s, Means::May(v));
                let w = v as i128;
                match form % 20 {
                    0 => no(format!("{v}.5")),
                    1 => may(format!("{v}.0"), w),
                    2 => {
                        let (m, k) = (v % 1000, (v >> 32) % 16);
                        may(format!("{m}e{k}"), m as i128 * 10i128.pow(k as u32))
                    }
                    3 => no(format!("{v}abc")),
                    4 => may(format!("-{v}"), -w),
                    5 => may(format!("+{v}"), w),
                    6 => may(format!(" {v} "), w),
                    7 => may(format!("0x{v:x}"), w),
                    8 => no(String::new()),
                    9 => may(format!("00{v}"), w),
                    10 => {
                        let x = (v as u128 + 1) << 64;
                        (x.to_string(), Means::Plain(x))
                    }
                    11 => no(format!("{v}n")),
                    12 => no(format!("{v}_000")),
                    13 => no(format!("{},{:03}", v / 1000, v % 1000)),
                    14 => no(["NaN", "Infinity", "-", "abc"][v as usize % 4].into()),
                    15 => may(format!("0b{v:b}"), w),
                    16 => no(format!("{v} {v}")),
                    17 => no(format!("0.{v}1")),
                    18 => no(format!("{v}-1")),
                    _ => may(format!("{v}."), w),
                }
            }
        }
    }
}
fn num() -> BoxedStrategy<Num> {
    prop_oneof![
        3 => log_u64().prop_map(Num::Abs),
        2 => (0u64..300).prop_map(Num::Abs),
        1 => lit().prop_map(Num::Abs),
        1 => (50u32..64, -2i64..3).prop_map(|(b, d)| Num::Abs((1u64 << b).wrapping_add_signed(d))),
        5 => (any::<u8>(), prop_oneof![3 => Just(0i8), 1 => -2i8..3]).prop_map(|(f, d)| Num::Fig(f, d)),
        4 => any::<u16>().prop_map(Num::Share),
        4 => (any::<u8>(), prop_oneof![2 => 0u64..300, 1 => log_u64()]).prop_map(|(f, v)| Num::Odd(f, v)),
    ]
    .boxed()
}
fn small_num() -> BoxedStrategy<Num> {
    prop_oneof![
        5 => idx().prop_map(|i| Num::Abs(i as u64)),
        5 => any::<u8>().prop_map(|i| Num::Fig(i, 0)),
        1 => (256u64..700).prop_map(Num::Abs),
        3 => (any::<u8>(), prop_oneof![3 => 0u64..4, 1 => 0u64..300]).prop_map(|(f, v)| Num::Odd(f, v)),
    ]
    .boxed()
}

/// An address as typed on a command line.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Addr {
    User(u8),
    OffCurve(u8),
    Raw([u8; 32]),
    Bad(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Cmd {
    Stake(Num),
    Unstake(Num, Num),
    Withdraw(Num),
    Cooldown(Num),
    Authority(Addr),
    Transfer(Addr, Num),
    ToVault(Num),
    MintAuthority,
    Init(Num),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pool {
    n: u64,
    extra_escrow: u64,
    supply: u64,
    cooldown: i64,
    now: i64,
    /// index, amount, seconds from now
    claims: Vec<(u8, u64, i64)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scr {
    salt: u8,
    cmd: Cmd,
    pool: Pool,
    orca: u64,
    xorca: u64,
    /// bits: own ORCA account missing, own xORCA account missing, state missing, vault missing,
    /// recipient's account missing, missing accounts hold lamports, claim address holds lamports
    absent: u8,
    /// which key signs: the right one, another user's, ... and broken key files
    who: u8,
    poor: Option<u32>,
    fail_after: Option<(u8, u8)>,
    skew: i64,
}

fn pool() -> BoxedStrategy<Pool> {
    (
        prop_oneof![5 => log_below(60), 1 => Just(0u64)],
        prop_oneof![5 => Just(0u64), 1 => log_below(60)],
        prop_oneof![6 => log_below(60), 1 => Just(0u64)],
        prop_oneof![3 => 0i64..1_000_000, 1 => cooldown_v()],
        prop_oneof![6 => 1_500_000_000i64..2_000_000_000, 1 => 0i64..5],
        proptest::collection::vec((idx(), log_below(50), prop_oneof![3 => -200i64..1, 2 => 0i64..3, 3 => 1i64..1_000_000, 1 => -2_000_000_000i64..2_000_000_000]), 0..6),
    )
        .prop_map(|(n, extra_escrow, supply, cooldown, now, claims)| Pool {
            n,
            extra_escrow,
            supply,
            cooldown,
            now,
            claims,
        })
        .boxed()
}
fn scr(_t: bool) -> BoxedStrategy<Scr> {
    let addr = || {
        prop_oneof![
            5 => (0u8..3).prop_map(Addr::User),
            1 => (0u8..3).prop_map(Addr::OffCurve),
            1 => any::<[u8; 32]>().prop_map(Addr::Raw),
            2 => any::<u8>().prop_map(Addr::Bad),
        ]
    };
    let cmd = prop_oneof![
        3 => num().prop_map(Cmd::Stake),
        5 => (num(), small_num()).prop_map(|(a, i)| Cmd::Unstake(a, i)),
        3 => small_num().prop_map(Cmd::Withdraw),
        3 => num().prop_map(Cmd::Cooldown),
        2 => addr().prop_map(Cmd::Authority),
        3 => (addr(), num()).prop_map(|(a, n)| Cmd::Transfer(a, n)),
        3 => num().prop_map(Cmd::ToVault),
        1 => Just(Cmd::MintAuthority),
        2 => num().prop_map(Cmd::Init),
    ];
    (
        (any::<u8>(), cmd, pool(), log_u64(), log_below(60)),
        prop_oneof![
            6 => Just(0u8),
            3 => (0u32..7).prop_map(|b| 1 << b),
            1 => any::<u8>(),
        ],
        prop_oneof![8 => Just(0u8), 3 => any::<u8>()],
        prop_oneof![9 => Just(None), 1 => any::<u32>().prop_map(|x| Some(x % 40_000_000))],
        prop_oneof![6 => Just(None), 1 => (0u8..13, 0u8..3).prop_map(Some)],
        prop_oneof![3 => Just(0i64), 1 => -100_000i64..100_000],
    )
        .prop_map(|((salt, cmd, pool, orca, xorca), absent, who, poor, fail_after, skew)| Scr {
            salt: salt % 16,
            cmd,
            orca,
            // most holders have no more than there is
            xorca: if xorca % 8 == 0 { xorca } else { xorca % (pool.supply + 1) },
            pool,
            absent,
            who,
            poor,
            fail_after,
            skew,
        })
        .boxed()
}

fn ata_ix(payer: &Key, owner: &Key, mint: &Key) -> Ix {
    let m = |key: Key, signer, writable| Meta { key, signer, writable };
    Ix {
        program: ATA,
        metas: vec![
            m(*payer, true, true),
            m(find_ata(owner, mint), false, true),
            m(*owner, false, false),
            m(*mint, false, false),
            m(SYSTEM, false, false),
            m(TOKEN, false, false),
        ],
        data: vec![],
    }
}
/// world.rs builds instructions with the histories' token accounts; scripts use associated ones
fn with_atas(mut ix: Ix, u: &Key) -> Ix {
    for m in ix.metas.iter_mut() {
        if m.key == orca_acct(u) {
            m.key = find_ata(u, &ORCA);
        } else if m.key == xorca_acct(u) {
            m.key = find_ata(u, &XORCA);
        }
    }
    ix
}

fn put_pool(b: &mut Bank, p: &Pool, owner: &Key, authority: &Key) {
    let mut e = p.extra_escrow;
    let mut seen = std::collections::BTreeSet::new();
    for (i, a, dt) in &p.claims {
        if seen.insert(*i) {
            e += a;
            let (k, bump) = pw_pda(owner, *i);
            b.set(k, acct(PROGRAM, pw_bytes(owner, *i, bump, *a, p.now.saturating_add(*dt))));
        }
    }
    inject(b, e.saturating_add(p.n), e, p.supply, p.cooldown, authority);
}

fn c23(c: &Scr, st: &mut Stats) -> Check {
    let us: Vec<(Key, Vec<u8>)> = (0..4).map(|i| keypair(c.salt, i)).collect::<Result<_, _>>()?;
    let me = us[0].0;
    let mut b = base_bank(c.pool.now);
    let init = matches!(c.cmd, Cmd::Init(_));
    // who is the authority of the pool: the signer, unless the case says otherwise
    let stranger = c.who % 8 == 3;
    let rightful = if stranger { us[3].0 } else { me };
    put_pool(&mut b, &c.pool, &me, &rightful);
    let absent = |i: u8| c.absent >> i & 1 == 1;
    for (i, (u, _)) in us.iter().enumerate() {
        b.set(*u, wallet(match c.poor {
            Some(x) if i == 0 => x as u64 + rent_min(0),
            _ => RICH,
        }));
        b.set(find_ata(u, &ORCA), acct(TOKEN, token_account(&ORCA, u, if i == 0 { c.orca } else { c.orca / 3 })));
        b.set(find_ata(u, &XORCA), acct(TOKEN, token_account(&XORCA, u, if i == 0 { c.xorca } else { 7 })));
    }
    let mut dust_any = false;
    let mut remove = |b: &mut Bank, k: Key| {
        b.accts.remove(&k);
        if absent(5) {
            dust_any = true;
            b.set(k, wallet(rent_min(0) + 5));
        }
    };
    if absent(0) {
        remove(&mut b, find_ata(&me, &ORCA));
    }
    if absent(1) {
        remove(&mut b, find_ata(&me, &XORCA));
    }
    // initialisation is about a pool that is not there yet
    if absent(2) != init {
        remove(&mut b, state());
    }
    if absent(3) != init {
        remove(&mut b, vault());
    }
    if absent(4) {
        remove(&mut b, find_ata(&us[1].0, &ORCA));
    }
    if init && !absent(6) {
        b.set(XORCA, acct(TOKEN, mint_account(Some(&state()), 0, 6, None)));
    }
    if matches!(c.cmd, Cmd::MintAuthority) {
        let a = match c.who % 8 {
            4 => None,
            5 => Some(state()),
            _ => Some(rightful),
        };
        let frozen = (c.who % 3 == 1).then_some(if c.skew == 0 { rightful } else { state() });
        b.set(XORCA, acct(TOKEN, mint_account(a.as_ref(), c.pool.supply, 6, frozen.as_ref())));
    }

    // key files
    let mut files = Map::new();
    let text = |b: &[u8]| json!(serde_json::to_string(&b.to_vec()).unwrap());
    let mut dep = vec![0xfa; 32];
    dep.extend(DEPLOYER);
    let payer_key = if init && c.who % 8 != 4 { (DEPLOYER, dep) } else { us[0].clone() };
    let mut good_file = true;
    match c.who {
        200..=204 => good_file = false,
        205..=209 => {
            good_file = false;
            files.insert("k/payer.json".into(), json!("[1,2,"));
        }
        210..=214 => {
            good_file = false;
            let mut x = payer_key.1.clone();
            x[0] ^= 1;
            x[40] ^= 4;
            files.insert("k/payer.json".into(), text(&x));
        }
        215..=219 => {
            good_file = false;
            files.insert("k/payer.json".into(), text(&payer_key.1[..63]));
        }
        _ => {
            files.insert("k/payer.json".into(), text(&payer_key.1));
        }
    }
    files.insert("k/authority.json".into(), text(&us[2].1));
    let payer = payer_key.0;

    // the request and what it means
    let figs = [
        if matches!(c.cmd, Cmd::Unstake(..)) { c.xorca } else { c.orca },
        vault_amt(&b),
        c.pool.supply,
        c.pool.n,
        c.pool.cooldown as u64,
        (1 << 53) + 1,
        i64::MAX as u64,
    ];
    let mut idxs: Vec<u64> = c.pool.claims.iter().map(|x| x.0 as u64).collect();
    idxs.push(3);
    if matches!(c.cmd, Cmd::Unstake(..)) {
        // mostly an index that is free
        idxs.extend((0..256).filter(|i| i % 17 == c.salt as u64 && !c.pool.claims.iter().any(|x| x.0 as u64 == *i)));
    }
    let u64_of = |m: &Means| match m {
        Means::Plain(v) => u64::try_from(*v).ok(),
        Means::May(v) => u64::try_from(*v).ok(),
        Means::Nothing => None,
    };
    let i64_of = |m: &Means| match m {
        Means::Plain(v) => i64::try_from(*v).ok(),
        Means::May(v) => i64::try_from(*v).ok(),
        Means::Nothing => None,
    };
    let mut lax = false; // a spelling or situation the script may refuse
    let note = |m: &Means| match m {
        Means::Plain(v) => *v != 0,
        _ => false,
    };
    let token = |b: &Bank, k: &Key| b.accts.get(k).is_some_and(|a| a.owner == TOKEN);
    let mut args = vec!["k/payer.json".to_string()];
    let mut asked: Option<Vec<Ix>> = None;
    let name;
    let mut recipient = None;
    let addr_of = |a: &Addr| -> (String, Option<Key>, bool) {
        match a {
            Addr::User(i) => (b58(&us[*i as usize % 3].0), Some(us[*i as usize % 3].0), true),
            Addr::OffCurve(i) => {
                let k = [state(), vault(), pw(&me, *i)][*i as usize % 3];
                (b58(&k), Some(k), false)
            }
            Addr::Raw(k) => (b58(k), Some(*k), false),
            Addr::Bad(i) => {
                let s = b58(&us[1].0);
                let s = match i % 7 {
                    0 => s[..s.len() - 1].to_string() + "0",
                    1 => s[..s.len() - 6].to_string(),
                    2 => s.clone() + "abcd",
                    3 => String::new(),
                    4 => hex(&us[1].0),
                    5 => "me".into(),
                    _ => s.replace(|ch: char| ch.is_ascii_digit(), "l"),
                };
                let k = unb58(&json!(s));
                (s, k, false)
            }
        }
    };
    match &c.cmd {
        Cmd::Stake(a) => {
            name = "stake";
            let (s, m) = a.text(&figs);
            args.push(s);
            lax |= !note(&m);
            asked = u64_of(&m).map(|v| {
                let mut v_ = vec![];
                if !token(&b, &find_ata(&me, &XORCA)) {
                    v_.push(ata_ix(&me, &me, &XORCA));
                }
                v_.push(with_atas(ix_stake(&me, v), &me));
                v_
            });
        }
        Cmd::Unstake(a, i) => {
            name = "unstake";
            let (s, m) = a.text(&figs);
            let (si, mi) = i.text(&idxs);
            args.push(s);
            args.push(si);
            lax |= !note(&m) || !matches!(mi, Means::Plain(_));
            asked = u64_of(&m).zip(u64_of(&mi).and_then(|x| u8::try_from(x).ok())).map(|(v, i)| {
                let mut v_ = vec![];
                if !token(&b, &find_ata(&me, &ORCA)) {
                    v_.push(ata_ix(&me, &me, &ORCA));
                }
                v_.push(with_atas(ix_unstake(&me, v, i), &me));
                v_
            });
        }
        Cmd::Withdraw(i) => {
            name = "withdraw";
            let (si, mi) = i.text(&idxs);
            args.push(si);
            lax |= !matches!(mi, Means::Plain(_)) || c.skew != 0;
            asked = u64_of(&mi).and_then(|x| u8::try_from(x).ok()).map(|i| {
                let mut v_ = vec![];
                if !token(&b, &find_ata(&me, &ORCA)) {
                    v_.push(ata_ix(&me, &me, &ORCA));
                }
                v_.push(with_atas(ix_withdraw(&me, i), &me));
                v_
            });
        }
        Cmd::Cooldown(a) => {
            name = "set";
            let (s, m) = a.text(&figs);
            args.push("update-cooldown".into());
            args.push(s);
            lax |= !matches!(m, Means::Plain(_));
            asked = i64_of(&m).map(|v| vec![ix_set_cooldown(&me, v)]);
        }
        Cmd::Authority(a) => {
            name = "set";
            let (s, k, _) = addr_of(a);
            args.push("update-authority".into());
            args.push(s);
            asked = k.map(|k| vec![ix_set_authority(&me, &k)]);
        }
        Cmd::Transfer(d, a) => {
            name = "transfer-orca";
            let (sd, k, sure) = addr_of(d);
            recipient = k;
            let (s, m) = a.text(&figs);
            args.push(sd);
            args.push(s);
            // an empty amount reads as nought, which moves nothing
            let m = if args[2].is_empty() { Means::May(0) } else { m };
            lax |= !note(&m) || !sure;
            asked = k.zip(u64_of(&m)).map(|(k, v)| {
                let mut v_ = vec![];
                if !token(&b, &find_ata(&k, &ORCA)) {
                    v_.push(ata_ix(&me, &k, &ORCA));
                }
                v_.push(ix_tok_transfer(find_ata(&me, &ORCA), find_ata(&k, &ORCA), &me, v));
                v_
            });
        }
        Cmd::ToVault(a) => {
            name = "transfer-orca-to-vault";
            let (s, m) = a.text(&figs);
            args.push(s);
            lax |= !note(&m);
            asked = u64_of(&m).map(|v| vec![ix_tok_transfer(find_ata(&me, &ORCA), vault(), &me, v)]);
        }
        Cmd::MintAuthority => {
            name = "update-xorca-mint-authority";
            let mut data = vec![6u8, 0, 1];
            data.extend(state());
            asked = Some(vec![Ix {
                program: TOKEN,
                metas: vec![
                    Meta { key: XORCA, signer: false, writable: true },
                    Meta { key: me, signer: true, writable: false },
                ],
                data,
            }]);
        }
        Cmd::Init(a) => {
            name = "initialize";
            let (s, m) = a.text(&figs);
            args.push("k/authority.json".into());
            args.push(s);
            lax |= !matches!(m, Means::Plain(_));
            asked = i64_of(&m).map(|v| vec![ix_init(&payer, &us[2].0, v)]);
        }
    }
    let effect = |ixs: &[Ix]| {
        let e = expect_tx(&b, ixs);
        e.res.is_ok().then_some(e.post).flatten()
    };
    let asked = asked.filter(|_| good_file);
    // an address that only holds lamports may be taken for an account; the rest must still be right
    let other = asked.as_ref().filter(|_| dust_any).and_then(|ixs| effect(&ixs[ixs.len() - 1..]));
    let want = asked.and_then(|ixs| effect(&ixs));
    lax |= dust_any;

    let r = run_script(name, &args, &files, &b, c.fail_after, (c.pool.now.saturating_add(c.skew)).saturating_mul(1000))?;
    let shown = || format!("{name} {:?}", args[1..].iter().collect::<Vec<_>>());
    let none = r.bank == b;
    let done = want.as_ref() == Some(&r.bank) || other.as_ref() == Some(&r.bank);
    if !none && !done {
        return Err(match &want {
            Some(w) => format!("{}: the ledger ends up different from what was asked: {}", shown(), show(&diff(&r.bank, w))),
            None => format!("{}: nothing could be done, yet the ledger changed: {}", shown(), show(&diff(&r.bank, &b))),
        });
    }
    if want.is_some() && !lax && !r.refused && r.executed == 0 {
        return Err(format!("{}: valid, affordable and not done (exit {}, {} sent): {:?}", shown(), r.code, r.sent, r.out.last()));
    }
    let soft = name == "withdraw" && (r.sent > 0 || r.refused);
    if r.executed == 0 && r.code == 0 && !soft {
        return Err(format!("{}: exits 0 although nothing was executed ({} sent)", shown(), r.sent));
    }
    if r.executed > 0 && !r.refused && !dust_any && r.code != 0 {
        return Err(format!("{}: exits {} although the transaction went through", shown(), r.code));
    }
    if done && r.executed > 0 && !r.refused {
        // what it reports is what happened
        let bal = |b: &Bank, k: &Key| tok_amount(b, k) as i128;
        let (mo, mx) = (find_ata(&me, &ORCA), find_ata(&me, &XORCA));
        let d = |k: &Key| bal(&r.bank, k) - bal(&b, k);
        let mut says: Vec<(&str, i128)> = match name {
            "stake" => vec![
                ("Final ORCA balance: ", bal(&r.bank, &mo)),
                ("Final xORCA balance: ", bal(&r.bank, &mx)),
                ("ORCA staked: ", -d(&mo)),
                ("xORCA received: ", d(&mx)),
            ],
            "unstake" => vec![
                ("final xORCA balance: ", bal(&r.bank, &mx)),
                ("final ORCA balance: ", bal(&r.bank, &mo)),
                ("xORCA unstaked: ", -d(&mx)),
                ("ORCA received: ", d(&mo)),
            ],
            "withdraw" => vec![("final ORCA balance: ", bal(&r.bank, &mo))],
            "transfer-orca" | "transfer-orca-to-vault" => vec![
                ("Final sender ORCA balance: ", bal(&r.bank, &mo)),
                ("Final vault ORCA balance: ", bal(&r.bank, &vault())),
                ("Vault received: ", d(&vault())),
            ],
            _ => vec![],
        };
        if name == "transfer-orca-to-vault" {
            says.push(("ORCA transferred: ", -d(&mo)));
        }
        if name == "transfer-orca" {
            says.push(("ORCA transferred: ", -d(&mo)));
            if let Some(k) = recipient {
                says.push(("ORCA received by recipient: ", d(&find_ata(&k, &ORCA))));
                says.push(("Final recipient ORCA balance: ", bal(&r.bank, &find_ata(&k, &ORCA))));
            }
        }
        for (l, w) in says {
            for g in labelled(&r.out, l) {
                if g.trim_end_matches('.') != w.to_string() {
                    return Err(format!("{}: reports \"{l}{g}\", the transaction made it {w}", shown()));
                }
                st.hit("reported figure");
            }
        }
    }
    if r.executed > 1 {
        st.hit("several transactions");
    }
    if done && r.executed > 0 {
        st.hit(&format!("{name} done"));
        if r.refused {
            st.hit("node failed after the transaction");
            if c.fail_after.is_some_and(|x| x.1 == 2) && r.sent > 0 {
                st.hit("one request failed or its answer was lost");
            }
        }
    } else {
        st.hit(if r.refused {
            "node failed, nothing done"
        } else if r.sent > 0 {
            "rejected on chain"
        } else {
            "refused by the script"
        });
    }
    if done || r.sent > 0 {
        st.nontrivial(serde_json::to_string(c).unwrap(), || serde_json::to_value(c).unwrap());
    }
    Ok(())
}

/// Key files: exactly the pair that belongs to the secret, or nothing.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gen {
    seed: [u8; 32],
    /// 0: the seed, 1: the whole pair, 2: pair with a wrong public half, 3: another length,
    /// 4: seed or pair with characters added, replaced or left out
    form: u8,
    len: u8,
    upper: bool,
    file: Option<String>,
}
fn gen(_t: bool) -> BoxedStrategy<Gen> {
    (any::<[u8; 32]>(), 0u8..5, any::<u8>(), any::<bool>(), proptest::option::of("[a-z]{1,8}\\.json"))
        .prop_map(|(seed, form, len, upper, file)| Gen { seed, form, len, upper, file })
        .boxed()
}
fn c23gen(c: &Gen, st: &mut Stats) -> Check {
    let pair = keypair_of(&c.seed)?;
    let (bytes, ok) = match c.form % 5 {
        0 => (c.seed.to_vec(), true),
        1 => (pair.clone(), true),
        2 => {
            let mut x = pair.clone();
            x[32 + c.len as usize % 32] ^= 1 << (c.len % 8);
            (x, false)
        }
        4 => (if c.len & 1 == 0 { c.seed.to_vec() } else { pair.clone() }, false),
        _ => {
            let n = c.len as usize % 100;
            let x: Vec<u8> = pair.iter().cycle().take(n).copied().collect();
            if n == 32 || n == 64 {
                return Ok(());
            }
            (x, false)
        }
    };
    let mut h = hex(&bytes);
    if c.upper {
        h = h.to_uppercase();
    }
    if c.form % 5 == 4 {
        // one character too many, too few, or not a hexadecimal digit: this is no secret
        let (at, junk) = (c.seed[0] as usize % h.len(), ["z", "0", " ", "f", "_", "-", "g", "O"][c.seed[1] as usize % 8]);
        match c.len >> 1 & 7 {
            0 => h.push_str(junk),
            1 => h.insert_str(at, junk),
            2 => h.insert_str(h.len() / 2, junk),
            3 => drop(h.pop()),
            4 => drop(h.remove(at)),
            5 => h.push_str("zz"),
            6 => h.insert(at, 'z'),
            _ => h.replace_range(at..at + 1, "x"),
        }
        // spaces around a secret may be overlooked
        if h.trim().len() == 64 || h.trim().len() == 128 {
            if h.trim().chars().all(|x| x.is_ascii_hexdigit()) {
                return Ok(());
            }
        }
    }
    let mut args = vec![h];
    args.extend(c.file.clone());
    let b = Bank::default();
    let r = run_script("generate-keypair", &args, &Map::new(), &b, None, 1_700_000_000_000)?;
    if !ok {
        if !r.written.is_empty() || r.code == 0 {
            return Err(format!("generate-keypair {:?} writes {:?}, exit {}", args, r.written, r.code));
        }
        st.hit("bad secret refused");
        return Ok(());
    }
    let name = format!("/w/keypairs/{}", c.file.as_deref().unwrap_or("generated-keypair.json"));
    let got: Option<Vec<u8>> = r.written.get(&name).and_then(|v| v.as_str()).and_then(|s| serde_json::from_str(s).ok());
    if got.as_ref() != Some(&pair) || r.written.len() != 1 || r.code != 0 {
        return Err(format!("generate-keypair {:?} writes {:?}, exit {}", args, r.written, r.code));
    }
    st.hit("key file written");
    st.nontrivial((c.seed, c.form), || serde_json::to_value(c).unwrap());
    Ok(())
}

/// Image upload: exactly the file, to the network named, under the key given, or nothing.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Up {
    bytes: Vec<u8>,
    dir: u8,
    stem: String,
    ext: String,
    network: u8,
    /// 0..=5 a good pair, then: missing, not JSON, another length, not a list
    key: u8,
    absent: bool,
    fails: bool,
    id: [u8; 32],
}
const MIME: [(&str, &str); 11] = [
    ("png", "image/png"),
    ("jpg", "image/jpeg"),
    ("jpeg", "image/jpeg"),
    ("gif", "image/gif"),
    ("webp", "image/webp"),
    ("svg", "image/svg+xml"),
    ("bmp", "image/bmp"),
    ("tiff", "image/tiff"),
    ("tif", "image/tiff"),
    ("ico", "image/x-icon"),
    ("bin", "application/octet-stream"),
];
fn up(_t: bool) -> BoxedStrategy<Up> {
    (
        prop_oneof![3 => proptest::collection::vec(any::<u8>(), 0..40), 1 => proptest::collection::vec(any::<u8>(), 0..3000)],
        (0u8..4, "[a-z]{1,6}(\\.[a-z]{1,4})?", prop_oneof![6 => (0usize..11).prop_map(|i| MIME[i].0.to_string()), 2 => (0usize..11).prop_map(|i| MIME[i].0.to_uppercase()), 1 => "[a-z]{2,5}".prop_map(|s| s), 1 => Just("pngx".to_string())]),
        0u8..8,
        0u8..10,
        prop::bool::weighted(0.1),
        prop::bool::weighted(0.1),
        any::<[u8; 32]>(),
    )
        .prop_map(|(bytes, (dir, stem, ext), network, key, absent, fails, id)| Up { bytes, dir, stem, ext, network, key, absent, fails, id })
        .boxed()
}
fn c23up(c: &Up, st: &mut Stats) -> Check {
    let pair = keypair(c.id[0] % 16, 0)?.1;
    let path = format!("{}{}.{}", ["", "./", "img/", "/srv/my.files/"][c.dir as usize % 4], c.stem, c.ext);
    let mut files = Map::new();
    let good_key = match c.key {
        6 => false,
        7 => {
            files.insert("k/payer.json".into(), json!("{\"secret\": [1"));
            false
        }
        8 => {
            files.insert("k/payer.json".into(), json!(serde_json::to_string(&pair[..32 + c.id[1] as usize % 32].to_vec()).unwrap()));
            false
        }
        9 => {
            files.insert("k/payer.json".into(), json!(format!("\"{}\"", hex(&pair[..32]))));
            false
        }
        _ => {
            files.insert("k/payer.json".into(), json!(serde_json::to_string(&pair).unwrap()));
            true
        }
    };
    let mut blobs = Map::new();
    if !c.absent {
        blobs.insert(path.trim_start_matches("./").to_string(), json!(hex(&c.bytes)));
    }
    let mut args = vec![path.clone(), "k/payer.json".to_string()];
    let url = match c.network {
        0 | 1 => Some("https://node1.irys.xyz"),
        2 | 3 => {
            args.push("mainnet".into());
            Some("https://node1.irys.xyz")
        }
        4 | 5 => {
            args.push("devnet".into());
            Some("https://devnet.irys.xyz")
        }
        6 => {
            args.push("testnet".into());
            None
        }
        _ => {
            args.push("Devnet".into());
            None
        }
    };
    let id = b58(&c.id);
    let r = run_with("upload-image", &args, &files, &Bank::default(), None, 1_700_000_000_000, json!({"blobs": blobs, "uploadFails": c.fails, "uploadId": id}))?;
    let shown = || format!("upload-image {:?}", args);
    let ok = good_key && url.is_some() && !c.absent;
    if !ok {
        if !r.uploads.is_empty() || r.code == 0 {
            return Err(format!("{}: uploads {} and exits {} although the request is bad", shown(), r.uploads.len(), r.code));
        }
        st.hit("bad upload refused");
        return Ok(());
    }
    if c.fails {
        if r.code == 0 || r.out.iter().any(|l| l.contains(&id)) {
            return Err(format!("{}: exits {} although the upload failed", shown(), r.code));
        }
        st.hit("failed upload reported");
    } else if r.uploads.len() != 1 || r.code != 0 {
        return Err(format!("{}: {} uploads, exit {}", shown(), r.uploads.len(), r.code));
    } else if !r.out.iter().any(|l| l.contains(&id)) {
        return Err(format!("{}: does not show where the image is", shown()));
    }
    let mime = MIME.iter().find(|m| m.0 == c.ext.to_lowercase()).map_or("application/octet-stream", |m| m.1);
    for u in &r.uploads {
        let tags: Vec<&str> = u["tags"].as_array().into_iter().flatten().filter(|t| t["name"] == "Content-Type").filter_map(|t| t["value"].as_str()).collect();
        let same_key = u["key"] == hex(&pair).as_str() || unb58_any(&u["key"]) == Some(pair.clone());
        if u["data"] != hex(&c.bytes).as_str() || tags != [mime] || !same_key || u["token"] != "solana" {
            return Err(format!("{}: uploads {} bytes as {tags:?} (expected {} bytes as {mime}, key ok: {same_key})", shown(), u["data"].as_str().unwrap_or("").len() / 2, c.bytes.len()));
        }
        if u["url"].as_str().map(|x| x.trim_end_matches('/')) != url {
            return Err(format!("{}: uploads to {}", shown(), u["url"]));
        }
    }
    st.hit("image uploaded");
    st.nontrivial((&c.bytes, &path, c.network), || serde_json::to_value(c).unwrap());
    Ok(())
}

/// A command line that leaves something out asks for nothing.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Short {
    salt: u8,
    script: u8,
    keep: u8,
    pool: Pool,
    amount: u64,
}
fn short(_t: bool) -> BoxedStrategy<Short> {
    (any::<u8>(), 0u8..12, 0u8..3, pool(), log_u64())
        .prop_map(|(salt, script, keep, pool, amount)| Short { salt: salt % 16, script, keep, pool, amount })
        .boxed()
}
fn c23short(c: &Short, st: &mut Stats) -> Check {
    let us: Vec<(Key, Vec<u8>)> = (0..3).map(|i| keypair(c.salt, i)).collect::<Result<_, _>>()?;
    let me = us[0].0;
    let mut b = base_bank(c.pool.now);
    put_pool(&mut b, &c.pool, &me, &me);
    for (u, _) in &us {
        b.set(*u, wallet(RICH));
        b.set(find_ata(u, &ORCA), acct(TOKEN, token_account(&ORCA, u, c.amount)));
        b.set(find_ata(u, &XORCA), acct(TOKEN, token_account(&XORCA, u, c.amount % (c.pool.supply + 1))));
    }
    let n = c.amount.to_string();
    let key = "k/payer.json".to_string();
    let (name, full): (&str, Vec<String>) = match c.script % 12 {
        0 => ("stake", vec![key, n]),
        1 => ("unstake", vec![key, n, "3".into()]),
        2 => ("withdraw", vec![key, "3".into()]),
        3 => ("set", vec![key, "update-cooldown".into(), n]),
        4 => ("set", vec![key, "update-authority".into(), b58(&us[1].0)]),
        5 => ("transfer-orca", vec![key, b58(&us[1].0), n]),
        6 => ("transfer-orca-to-vault", vec![key, n]),
        7 => ("update-xorca-mint-authority", vec![key]),
        8 => ("initialize", vec![key, "k/authority.json".into(), n]),
        9 => ("generate-keypair", vec![hex(&us[0].1)]),
        10 => ("upload-image", vec!["a.png".into(), key]),
        _ => ("pending-withdraws", vec![b58(&me)]),
    };
    if name == "initialize" {
        b.accts.remove(&state());
        b.accts.remove(&vault());
        b.set(XORCA, acct(TOKEN, mint_account(Some(&state()), 0, 6, None)));
    }
    if name == "update-xorca-mint-authority" {
        b.set(XORCA, acct(TOKEN, mint_account(Some(&me), c.pool.supply, 6, None)));
    }
    let args = &full[..c.keep as usize % full.len()];
    let mut files = Map::new();
    let text = |b: &[u8]| json!(serde_json::to_string(&b.to_vec()).unwrap());
    let mut dep = vec![0xfa; 32];
    dep.extend(DEPLOYER);
    files.insert("k/payer.json".into(), text(if name == "initialize" { &dep } else { &us[0].1 }));
    files.insert("k/authority.json".into(), text(&us[2].1));
    let now = c.pool.now.saturating_mul(1000);
    let r = run_with(name, args, &files, &b, None, now, json!({"blobs": {"a.png": "00"}}))?;
    if r.code == 0 || r.sent > 0 || r.bank != b || !r.written.is_empty() || !r.uploads.is_empty() {
        return Err(format!(
            "{name} {args:?} (arguments missing): exits {}, sends {} transactions, writes {:?}, uploads {}",
            r.code, r.sent, r.written, r.uploads.len()
        ));
    }
    st.hit("incomplete command line refused");
    st.nontrivial((name, args.len(), c.amount), || serde_json::to_value(c).unwrap());
    Ok(())
}

/// base58 of any length (the upload service takes keys in that form too)
fn unb58_any(v: &Value) -> Option<Vec<u8>> {
    let mut n: Vec<u8> = vec![];
    let s = v.as_str()?;
    for ch in s.bytes() {
        let mut carry = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz".iter().position(|x| *x == ch)? as u32;
        for d in n.iter_mut().rev() {
            carry += *d as u32 * 58;
            *d = carry as u8;
            carry >>= 8;
        }
        while carry > 0 {
            n.insert(0, carry as u8);
            carry >>= 8;
        }
    }
    let zeros = s.bytes().take_while(|x| *x == b'1').count();
    Some([vec![0; zeros], n].concat())
}

// ---- C24 ----------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct View {
    salt: u8,
    list: bool,
    pool: Pool,
    /// vault below escrow by this much
    short: u64,
    bad_addr: Option<u8>,
    /// state missing, vault missing, claim addresses holding lamports only
    absent: u8,
    dust: Vec<u8>,
    fail_after: Option<(u8, u8)>,
    now_ms: u16,
}
fn view(_t: bool) -> BoxedStrategy<View> {
    (
        any::<u8>(),
        any::<bool>(),
        pool(),
        proptest::collection::vec((0u8..15, log_u64(), prop_oneof![2 => -200_000i64..200_000, 1 => -2i64..3, 1 => any::<i64>()]), 0..10),
        prop_oneof![6 => Just(0u64), 1 => log_below(50)],
        prop_oneof![12 => Just(None), 1 => any::<u8>().prop_map(Some)],
        prop_oneof![6 => Just(0u8), 1 => 0u8..4],
        prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec(0u8..16, 1..4)],
        (prop_oneof![4 => Just(None), 1 => (0u8..20, 0u8..2).prop_map(Some)], 0u16..1000),
        (
            prop_oneof![1 => Just(None), 1 => (log_u64(), log_u64(), log_u64()).prop_map(Some)],
            proptest::collection::vec(prop_oneof![1 => Just(None), 1 => log_below(32).prop_map(Some)], 10),
            // every index in use, all ready or none, but for a few
            prop_oneof![6 => Just(None), 1 => (proptest::collection::vec((log_u64(), 0i64..200_000), 15), any::<bool>(), proptest::collection::vec(0u8..15, 0..3)).prop_map(Some)],
        ),
    )
        .prop_map(|(salt, list, mut pool, mut claims, short, bad_addr, absent, dust, (fail_after, now_ms), (wide, made, full))| {
            if let Some((v, ready, but)) = full {
                claims = (0u8..)
                    .zip(v)
                    .map(|(i, (a, t))| (i, a, if ready != but.contains(&i) { -t } else { t + 1 }))
                    .collect();
            }
            if let Some((n, e, s)) = wide {
                (pool.n, pool.extra_escrow, pool.supply) = (n, e, s);
            }
            if list {
                // claims made in the recent past under the present cooldown
                for (c, ago) in claims.iter_mut().zip(made) {
                    if let Some(ago) = ago {
                        c.2 = pool.cooldown.saturating_sub(ago as i64);
                    }
                }
                pool.claims = claims;
            }
            View { salt, list, pool, short, bad_addr, absent, dust, fail_after, now_ms }
        })
        .boxed()
}

/// the number after `label` wherever it occurs
fn labelled<'a>(out: &'a [String], label: &str) -> Vec<&'a str> {
    let mut v = vec![];
    for line in out {
        if let Some(p) = line.find(label) {
            // not a longer word ending in the label
            let before = line[..p].chars().next_back();
            if before.is_some_and(|c| c.is_alphanumeric() || c == '-') {
                continue;
            }
            let rest = &line[p + label.len()..];
            let end = rest.find(|c: char| !(c.is_ascii_digit() || c == '-' || c == '.' || c == 'e' || c == '+')).unwrap_or(rest.len());
            if end > 0 {
                v.push(&rest[..end]);
            }
        }
    }
    v
}
fn mentions(out: &[String], token: &str) -> bool {
    out.iter()
        .flat_map(|l| l.split(|c: char| !(c.is_ascii_alphanumeric() || c == '-')))
        .any(|w| w == token)
}

/// "3d 4h", "5m 6s", "7 seconds": seconds and the unit it is rounded down to
fn duration(s: &str) -> Option<(i128, i128)> {
    let (mut total, mut unit, mut num) = (0i128, 0, String::new());
    for ch in s.trim().chars() {
        if ch.is_ascii_digit() {
            num.push(ch);
        } else if let Some(u) = [('d', 86400), ('h', 3600), ('m', 60), ('s', 1)].iter().find(|x| x.0 == ch && !num.is_empty()) {
            total += num.parse::<i128>().ok()? * u.1;
            unit = u.1;
            num.clear();
        } else if ch != ' ' {
            // the rest of a word, or a form not known here
            if !"econds".contains(ch) {
                return None;
            }
        }
    }
    (unit > 0 && num.is_empty()).then_some((total, unit))
}
/// date and time of an instant, as in ISO 8601
fn iso(t: i64) -> String {
    let (days, sec) = (t.div_euclid(86400), t.rem_euclid(86400));
    let z = days + 719_468;
    let (era, doe) = (z.div_euclid(146_097), z.rem_euclid(146_097));
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let (d, m) = (doy - (153 * mp + 2) / 5 + 1, if mp < 10 { mp + 3 } else { mp - 9 });
    let y = yoe + era * 400 + i64::from(m <= 2);
    format!("{y:04}-{m:02}-{d:02}T{:02}:{:02}:{:02}", sec / 3600, sec / 60 % 60, sec % 60)
}

fn c24(c: &View, st: &mut Stats) -> Check {
    let me = keypair(c.salt % 16, 0)?.0;
    let au = auth(c.salt, 1);
    let mut p = c.pool.clone();
    // amounts may be anything; the escrow figure is what the state says
    let mut seen = std::collections::BTreeSet::new();
    p.claims.retain(|x| seen.insert(x.0));
    let mut b = base_bank(p.now);
    for (i, a, dt) in &p.claims {
        let (k, bump) = pw_pda(&me, *i);
        b.set(k, acct(PROGRAM, pw_bytes(&me, *i, bump, *a, p.now.saturating_add(*dt))));
    }
    for i in &c.dust {
        if !seen.contains(i) {
            b.set(pw(&me, *i), wallet(rent_min(0) + *i as u64));
        }
    }
    let e = p.extra_escrow.saturating_add(c.short);
    let v = p.n.saturating_add(p.extra_escrow);
    inject(&mut b, v, e, p.supply, p.cooldown, &au);
    if c.absent & 1 != 0 {
        b.accts.remove(&state());
    }
    if c.absent & 2 != 0 {
        b.accts.remove(&vault());
    }
    let now_ms = p.now.saturating_mul(1000).saturating_add(c.now_ms as i64 % 1000);
    let (n, s) = (v as i128 - e as i128, p.supply as i128);
    if !c.list {
        let r = run_script("status", &[], &Map::new(), &b, c.fail_after, now_ms)?;
        if r.sent > 0 {
            return Err("status sends a transaction".into());
        }
        let figures: Vec<(&str, String)> = vec![
            ("Total ORCA in Vault: ", v.to_string()),
            ("Escrowed ORCA: ", e.to_string()),
            ("Escrowed ORCA Amount: ", e.to_string()),
            ("Non-Escrowed ORCA: ", n.to_string()),
            ("xORCA Total Supply: ", s.to_string()),
            ("xORCA Supply: ", s.to_string()),
            ("Cool Down Period: ", p.cooldown.to_string()),
            ("Numerator (Non-Escrowed + Virtual): ", (n + 100).to_string()),
            ("Denominator (xORCA Supply + Virtual): ", (s + 100).to_string()),
            ("Vault Bump: ", vault_pda().1.to_string()),
        ];
        for (l, w) in &figures {
            for g in labelled(&r.out, l) {
                if g != w {
                    return Err(format!("status prints \"{l}{g}\", on chain it is {w}"));
                }
            }
        }
        if n > 0 && s > 0 {
            let (num, den) = ((n + 100) as f64, (s + 100) as f64);
            for (l, w) in [
                ("1 ORCA = ", den / num),
                ("1 xORCA = ", num / den),
                ("ORCA → xORCA Rate: ", den / num),
                ("xORCA → ORCA Rate: ", num / den),
                ("Exchange Rate (ORCA→xORCA): ", den / num),
                ("Exchange Rate (xORCA→ORCA): ", num / den),
            ] {
                for g in labelled(&r.out, l) {
                    let x: f64 = g.parse().unwrap_or(f64::NAN);
                    if !((x - w).abs() <= 2e-10 + w * 1e-9) {
                        return Err(format!("status prints \"{l}{g}\", by the program's figures it is {w}"));
                    }
                    st.hit("rate");
                }
            }
        }
        let whole = c.absent == 0 && !r.refused;
        if whole {
            for w in [v.to_string(), e.to_string(), n.to_string(), s.to_string(), p.cooldown.to_string(), b58(&au)] {
                if !mentions(&r.out, &w) {
                    return Err(format!("status does not show {w} (vault {v}, escrow {e}, supply {s}, cooldown {})", p.cooldown));
                }
            }
            st.hit(if n < 0 { "status of an insolvent pool" } else { "status" });
            st.nontrivial((v, e, s, p.cooldown), || serde_json::to_value(c).unwrap());
        } else {
            st.hit(if r.refused { "status, node failing" } else { "status, accounts missing" });
        }
        return Ok(());
    }
    let mut arg = b58(&me);
    if let Some(x) = c.bad_addr {
        arg.replace_range(x as usize % 30..x as usize % 30 + 1, "0");
    }
    let r = run_script("pending-withdraws", &[arg], &Map::new(), &b, c.fail_after, now_ms)?;
    if r.sent > 0 {
        return Err("pending-withdraws sends a transaction".into());
    }
    // what it says, claim by claim
    let mut got: Vec<(u64, Option<String>, Option<bool>)> = vec![];
    let mut found = None;
    for l in &r.out {
        if let Some(p) = l.find("Pending Withdraw #") {
            got.push((l[p + 18..].trim().parse().unwrap_or(999), None, None));
        } else if let Some(g) = got.last_mut() {
            if let Some(p) = l.find("Amount: ") {
                g.1.get_or_insert(l[p + 8..].trim().to_string());
            } else if l.contains("READY TO WITHDRAW") {
                g.2.get_or_insert(true);
            } else if l.contains("COOLDOWN ACTIVE") {
                g.2.get_or_insert(false);
            }
        }
        if let Some(p) = l.find("Found ") {
            found = l[p + 6..].split(' ').next().and_then(|x| x.parse::<usize>().ok());
        }
    }
    let mut want: Vec<(u64, u64, bool)> =
        p.claims.iter().filter(|x| x.0 < 15).map(|x| (x.0 as u64, x.1, p.now.saturating_add(x.2) <= p.now)).collect();
    want.sort();
    if c.bad_addr.is_some() {
        if !got.is_empty() || found.is_some() {
            return Err("pending-withdraws lists claims of an address that does not exist".into());
        }
        st.hit("bad address refused");
        return Ok(());
    }
    let listing = !got.is_empty() || found.is_some();
    if c.absent & 1 != 0 || (r.refused && !listing) {
        if listing {
            return Err("pending-withdraws lists claims without a state account".into());
        }
        if c.absent & 1 == 0 && r.code == 0 {
            return Err("pending-withdraws lists nothing because the node failed, and exits 0".into());
        }
        st.hit("no listing");
        return Ok(());
    }
    if r.refused && r.code != 0 && found.is_none() && got.is_empty() {
        return Ok(());
    }
    let shown: Vec<(u64, u64, bool)> = {
        let mut v: Vec<_> = got
            .iter()
            .map(|(i, a, rd)| (*i, a.as_ref().and_then(|x| x.parse().ok()).unwrap_or(u64::MAX), rd.unwrap_or(false)))
            .collect();
        v.sort();
        v
    };
    if shown != want || found.is_some_and(|f| f != want.len()) {
        return Err(format!(
            "pending-withdraws shows (index, amount, ready) {shown:?} (found {found:?}), on chain {want:?}{}",
            if r.refused { "; the node had failed" } else { "" }
        ));
    }
    if r.out.iter().any(|l| ["xORCA Amount: ", "xORCA Ready: ", "xORCA in Cooldown: "].iter().any(|x| l.contains(x))) {
        return Err("pending-withdraws calls an ORCA amount xORCA".into());
    }
    for (l, w) in [
        ("Total Pending Withdraws: ", want.len() as u128),
        ("Ready to Withdraw: ", want.iter().filter(|x| x.2).count() as u128),
        ("In Cooldown: ", want.iter().filter(|x| !x.2).count() as u128),
        ("Total ORCA Ready: ", want.iter().filter(|x| x.2).map(|x| x.1 as u128).sum()),
        ("Total ORCA in Cooldown: ", want.iter().filter(|x| !x.2).map(|x| x.1 as u128).sum()),
    ] {
        for g in labelled(&r.out, l) {
            if g != w.to_string() {
                return Err(format!("pending-withdraws prints \"{l}{g}\", on chain it is {w}"));
            }
        }
        // counts of nothing may be left out
        if w > 0 && labelled(&r.out, l).is_empty() {
            return Err(format!("pending-withdraws does not print \"{l}{w}\""));
        }
    }
    for g in labelled(&r.out, "Cool down period: ") {
        if g != p.cooldown.to_string() {
            return Err(format!("pending-withdraws prints a cooldown of {g}, it is {}", p.cooldown));
        }
    }
    // times, where it prints them
    let mut cur = None;
    for l in &r.out {
        if let Some(q) = l.find("Pending Withdraw #") {
            let i: u64 = l[q + 18..].trim().parse().unwrap_or(999);
            cur = p.claims.iter().find(|x| x.0 as u64 == i).map(|x| (x.0, p.now.saturating_add(x.2)));
        }
        let Some((i, ts)) = cur else { continue };
        if let Some(q) = l.find("Address: ") {
            if l[q + 9..].trim() != b58(&pw(&me, i)) {
                return Err(format!("pending-withdraws gives claim {i} the address {}", l[q + 9..].trim()));
            }
        }
        let made = ts as i128 - p.cooldown as i128;
        for (label, secs) in [
            ("Time Remaining: ", ts as i128 - p.now as i128),
            ("Ready for: ", p.now as i128 - ts as i128),
            ("Time Elapsed: ", p.now as i128 - made),
        ] {
            if let Some((got, unit)) = l.find(label).and_then(|q| duration(&l[q + label.len()..])) {
                if (0..1 << 52).contains(&secs) && !(got <= secs && secs < got + unit) {
                    return Err(format!("pending-withdraws prints \"{}\", it is {secs} s", l.trim()));
                }
                st.hit("duration");
            }
        }
        if let Some(q) = l.find("Created: ") {
            let got = &l[q + 9..];
            // beyond the year 275760 there is no date
            if got.starts_with(|ch: char| ch.is_ascii_digit()) && (0..253_402_300_800).contains(&made) && !got.starts_with(&iso(made as i64)) {
                return Err(format!("pending-withdraws prints \"{}\", it is {}", l.trim(), iso(made as i64)));
            }
        }
    }
    st.hit(if want.is_empty() { "nothing pending" } else { "claims listed" });
    if !want.is_empty() {
        st.nontrivial(serde_json::to_string(&p.claims).unwrap(), || serde_json::to_value(c).unwrap());
    }
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C23",
            rule: "each of the eight transaction scripts with generated arguments (plain numbers over u64 and beyond, other spellings, addresses, key files), pools, balances, absent accounts, poor payers and node failures; key generation from secrets of any length; image uploads with any bytes, names, networks and key files; command lines with arguments missing; non-trivial = a transaction was sent, a key file written or an image uploaded; distinct by full case",
            parts: vec![part("scripts", 40_000, 1_500_000, scr, c23), part("keyfiles", 4_000, 100_000, gen, c23gen), part("upload", 4_000, 100_000, up, c23up), part("usage", 2_000, 50_000, short, c23short)],
            must_hit: &[
                "stake done", "unstake done", "withdraw done", "set done", "transfer-orca done", "transfer-orca-to-vault done",
                "update-xorca-mint-authority done", "initialize done", "rejected on chain", "refused by the script",
                "reported figure", "node failed, nothing done", "node failed after the transaction", "one request failed or its answer was lost", "key file written", "bad secret refused",
                "image uploaded", "bad upload refused", "failed upload reported", "incomplete command line refused",
            ],
            assumptions: SCRIPT_TRUST,
        },
        Property {
            id: "C24",
            rule: "status and claim listings over generated pools (also insolvent), claims with any amount and time, claim addresses holding only lamports, absent accounts, node failures after any number of answers; non-trivial = a complete status or at least one claim to list; distinct by figures",
            parts: vec![part("views", 40_000, 1_500_000, view, c24)],
            must_hit: &["status", "status of an insolvent pool", "status, node failing", "claims listed", "nothing pending", "no listing", "rate", "duration"],
            assumptions: SCRIPT_TRUST,
        },
    ]
}
const SCRIPT_TRUST: &[&str] = &[
    TRUST[0],
    "@solana/web3.js and @solana/spl-token are stand-ins written from their documentation (js/web3.ts, js/spl.ts): addresses, keys, instruction encodings, required signatures; blockhash expiry and fees are not modelled",
];
