//! C20: the Rust fetch helpers against generated ledgers served by a mock RPC node.
#[path = "../../harness/src/runner.rs"]
mod runner;
#[path = "../../harness/src/dict.rs"]
#[allow(dead_code)]
mod dict;
#[path = "../../harness/src/ledger.rs"]
mod ledger;

use base64::{engine::general_purpose::STANDARD as BASE64, Engine as _};
use proptest::prelude::*;
use ledger::*;
use runner::*;
use serde_json::{json, Value};
use solana_client::client_error::{ClientErrorKind, Result as RpcResult};
use solana_client::rpc_client::{RpcClient, RpcClientConfig};
use solana_client::rpc_request::RpcRequest;
use solana_client::rpc_sender::{RpcSender, RpcTransportStats};
use solana_sdk::commitment_config::CommitmentConfig;
use solana_sdk::pubkey;
use solana_sdk::pubkey::Pubkey;
use std::collections::HashMap;
use std::str::FromStr;
use std::sync::{Arc, Mutex, OnceLock};

const PROGRAM: Pubkey = pubkey!("StaKE6XNKVVhG8Qu9hDJBqCW3eRe7MDGLz17nJZetLT");
const ORCA: Pubkey = pubkey!("orcaEKTdK7LKz57vaAYr9QeNsVEPfiu6QeMU1kektZE");
const XORCA: Pubkey = pubkey!("xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N");
const TOKEN: Pubkey = pubkey!("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
const ATA: Pubkey = pubkey!("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");

fn addrs() -> &'static (Pubkey, u8, Pubkey, u8) {
    static C: OnceLock<(Pubkey, u8, Pubkey, u8)> = OnceLock::new();
    C.get_or_init(|| {
        let (s, sb) = Pubkey::find_program_address(&[b"state"], &PROGRAM);
        let (v, vb) = Pubkey::find_program_address(&[s.as_ref(), TOKEN.as_ref(), ORCA.as_ref()], &ATA);
        (s, sb, v, vb)
    })
}

/// Claim addresses of a few stakers, computed once.
fn claims(staker: u8) -> &'static Vec<(Key, u8)> {
    static C: [OnceLock<Vec<(Key, u8)>>; 6] = [const { OnceLock::new() }; 6];
    C[staker as usize % 6].get_or_init(|| {
        let s = staker_key(staker);
        (0..=255u8)
            .map(|i| Pubkey::find_program_address(&[b"pending_withdraw", s.as_ref(), &[i]], &PROGRAM))
            .map(|(k, b)| (k.to_bytes(), b))
            .collect()
    })
}

fn ctx() -> Ctx {
    let a = addrs();
    Ctx {
        program: PROGRAM.to_bytes(),
        token: TOKEN.to_bytes(),
        orca: ORCA.to_bytes(),
        xorca: XORCA.to_bytes(),
        state: (a.0.to_bytes(), a.1),
        vault: (a.2.to_bytes(), a.3),
        claims,
    }
}

// ---- ledger and mock node -----------------------------------------------------------------

#[derive(Default)]
struct Node {
    accounts: HashMap<Pubkey, Acct>,
    /// requests still answered before one is failed
    fail_after: Option<u32>,
    /// real nodes refuse more than 100 addresses in one request
    limit: bool,
    requests: u32,
    refused: bool,
}

impl Node {
    fn ui(&self, k: &Pubkey) -> Value {
        match self.accounts.get(k) {
            Some(a) => json!({
                "executable": false, "lamports": a.lamports, "owner": Pubkey::new_from_array(a.owner).to_string(),
                "rentEpoch": 0, "data": [BASE64.encode(&a.data), "base64"], "space": a.data.len()
            }),
            None => Value::Null,
        }
    }
}

struct Sender(Arc<Mutex<Node>>);

#[async_trait::async_trait]
impl RpcSender for Sender {
    async fn send(&self, request: RpcRequest, params: Value) -> RpcResult<Value> {
        let mut n = self.0.lock().unwrap_or_else(|e| e.into_inner());
        n.requests += 1;
        if let Some(k) = n.fail_after {
            if n.requests > k {
                n.refused = true;
                return Err(ClientErrorKind::Custom("node unavailable".into()).into());
            }
        }
        let key = |v: &Value| {
            v.as_str()
                .and_then(|s| Pubkey::from_str(s).ok())
                .ok_or_else(|| ClientErrorKind::Custom("bad address".into()))
        };
        let value = match request {
            RpcRequest::GetAccountInfo => n.ui(&key(&params[0])?),
            RpcRequest::GetMultipleAccounts => {
                let v = params[0].as_array().cloned().unwrap_or_default();
                // not an injected fault: a client that asks for too many is at fault itself
                if n.limit && v.len() > 100 {
                    return Err(ClientErrorKind::Custom("Too many inputs provided; max 100".into()).into());
                }
                let mut out = vec![];
                for a in &v {
                    out.push(n.ui(&key(a)?));
                }
                Value::Array(out)
            }
            RpcRequest::GetTokenAccountBalance => {
                let a = n.accounts.get(&key(&params[0])?).cloned();
                match a.and_then(|a| (a.owner == TOKEN.to_bytes() && a.data.len() == 165).then(|| le(&a.data, 64))) {
                    Some(x) => json!({"amount": x.to_string(), "decimals": 6, "uiAmount": null, "uiAmountString": ui_amount(x)}),
                    None => return Err(ClientErrorKind::Custom("could not find account".into()).into()),
                }
            }
            RpcRequest::GetTokenSupply => {
                let a = n.accounts.get(&key(&params[0])?).cloned();
                match a.and_then(|a| (a.owner == TOKEN.to_bytes() && a.data.len() == 82).then(|| le(&a.data, 36))) {
                    Some(x) => json!({"amount": x.to_string(), "decimals": 6, "uiAmount": null, "uiAmountString": ui_amount(x)}),
                    None => return Err(ClientErrorKind::Custom("could not find mint".into()).into()),
                }
            }
            _ => return Err(ClientErrorKind::Custom(format!("unsupported method {request:?}")).into()),
        };
        Ok(json!({"context": {"slot": 1}, "value": value}))
    }
    fn get_transport_stats(&self) -> RpcTransportStats {
        RpcTransportStats::default()
    }
    fn url(&self) -> String {
        "mock://".into()
    }
}
fn ui_amount(x: u64) -> String {
    format!("{}.{:06}", x / 1_000_000, x % 1_000_000)
}
fn le(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}

thread_local! {
    static RPC: (Arc<Mutex<Node>>, RpcClient) = {
        let n = Arc::new(Mutex::new(Node::default()));
        let c = RpcClient::new_sender(Sender(n.clone()), RpcClientConfig::with_commitment(CommitmentConfig::confirmed()));
        (n, c)
    };
}

fn load(l: &Ledger, n: &mut Node) {
    *n = Node {
        limit: l.node_limit,
        fail_after: l.fail_after.map(u32::from),
        ..Default::default()
    };
    n.accounts = l.accounts(&ctx()).into_iter().map(|(k, a)| (Pubkey::new_from_array(k), a)).collect();
}

// ---- oracle -------------------------------------------------------------------------------

/// Runs one helper against a freshly loaded ledger.
fn call<T, E: std::fmt::Debug>(l: &Ledger, f: impl Fn(&RpcClient) -> Result<T, E>) -> (Result<T, String>, bool) {
    RPC.with(|(n, rpc)| {
        load(l, &mut n.lock().unwrap_or_else(|e| e.into_inner()));
        let r = f(rpc).map_err(|e| format!("{e:?}"));
        let refused = n.lock().unwrap_or_else(|e| e.into_inner()).refused;
        (r, refused)
    })
}

/// `want` = Err(reason) means the helper must fail.
fn verdict<T: PartialEq + std::fmt::Debug>(
    what: &str,
    (got, refused): (Result<T, String>, bool),
    want: Result<T, &'static str>,
    st: &mut Stats,
) -> Check {
    if refused {
        // the node answered a request with an error
        st.hit("node error");
        return match got {
            Err(_) => Ok(()),
            Ok(g) => Err(format!("{what}: the node failed a request but the helper returned {g:?}")),
        };
    }
    match (got, want) {
        (Ok(g), Ok(w)) if g == w => {
            st.hit(&format!("{what} returned"));
            Ok(())
        }
        (Err(_), Err(r)) => {
            st.hit(&format!("{what} refused: {r}"));
            Ok(())
        }
        (Ok(g), Ok(w)) => Err(format!("{what}: returned {g:?}, on chain {w:?}")),
        (Ok(g), Err(r)) => Err(format!("{what}: returned {g:?} although {r}")),
        (Err(e), Ok(w)) => Err(format!("{what}: failed ({e}), on chain {w:?}")),
    }
}

fn good(s: &Shape, name: &'static str) -> Result<(), &'static str> {
    match s {
        Shape::Good => Ok(()),
        _ => Err(name),
    }
}

fn c20(l: &Ledger, st: &mut Stats) -> Check {
    let a = addrs();
    let state_ok = good(&l.state, "the state account is missing or malformed");
    let vault_ok = good(&l.vault, "the vault is missing or malformed");
    let mint_ok = good(&l.mint, "the mint is missing or malformed");

    let stored_accts: HashMap<Pubkey, Acct> = l.accounts(&ctx()).into_iter().map(|(k, a)| (Pubkey::new_from_array(k), a)).collect();
    type St = (Vec<u8>, u64, i64, [u8; 32]);
    let view = |s: xorca::State| -> St {
        (vec![s.discriminator as u8, s.bump, s.vault_bump], s.escrowed_orca_amount, s.cool_down_period_s, s.update_authority.to_bytes())
    };
    let st_want: St = (vec![1, a.1, a.3], l.escrow, l.cooldown, l.auth);
    verdict("state", {
        let (r, f) = call(l, xorca::fetch_state_account_data);
        (r.map(view), f)
    }, state_ok.map(|_| st_want.clone()), st)?;
    verdict("cooldown", call(l, xorca::fetch_state_account_cool_down_period_s), state_ok.map(|_| l.cooldown), st)?;
    verdict("vault", {
        let (r, f) = call(l, xorca::fetch_vault_state);
        (r.map(|v| (v.address, v.owner, v.mint, v.amount)), f)
    }, vault_ok.map(|_| (a.2, a.0, ORCA, l.amount)), st)?;
    verdict("supply", call(l, xorca::fetch_xorca_mint_supply), mint_ok.map(|_| l.supply), st)?;
    let rate = state_ok.and(vault_ok).and(mint_ok).and_then(|_| {
        l.amount
            .checked_sub(l.escrow)
            .map(|n| (n, l.supply))
            .ok_or("the vault holds less than the escrow")
    });
    verdict("rate", {
        let (r, f) = call(l, xorca::fetch_staking_exchange_rate);
        (r.map(|v| (v.numerator, v.denominator)), f)
    }, rate, st)?;

    let raw = |k: &Pubkey| -> Option<(u64, Key, Vec<u8>)> {
        stored_accts.get(k).map(|x| (x.lamports, x.owner, x.data.clone()))
    };
    let acct = |x: &solana_sdk::account::Account| (x.lamports, x.owner.to_bytes(), x.data.clone());
    verdict("state account", {
        let (r, f) = call(l, |rpc| xorca::fetch_state(rpc, &a.0));
        (r.map(|d| (d.address, view(d.data), Some(acct(&d.account)))), f)
    }, state_ok.map(|_| (a.0, st_want.clone(), raw(&a.0))), st)?;
    verdict("two states", {
        let (r, f) = call(l, |rpc| xorca::fetch_all_state(rpc, &[a.0, a.0]));
        (r.map(|v| v.into_iter().map(|d| (d.address, view(d.data))).collect::<Vec<_>>()), f)
    }, state_ok.map(|_| vec![(a.0, st_want.clone()); 2]), st)?;
    verdict("states, maybe", {
        let (r, f) = call(l, |rpc| xorca::fetch_all_maybe_state(rpc, &[Pubkey::new_from_array([0xAC; 32]), a.0]));
        (r.map(|v| v.into_iter().map(|m| match m {
            xorca::MaybeAccount::Exists(d) => (d.address, Some(view(d.data))),
            xorca::MaybeAccount::NotFound(k) => (k, None),
        }).collect::<Vec<_>>()), f)
    }, match l.state {
        Shape::Absent => Ok(None),
        Shape::Good => Ok(Some(st_want.clone())),
        _ => Err("the state account is malformed"),
    }.map(|s| vec![(Pubkey::new_from_array([0xAC; 32]), None), (a.0, s)]), st)?;

    // pending withdrawals
    let mut here: HashMap<Key, &Claim> = HashMap::new();
    for c in &l.claims {
        here.insert(claims(c.staker)[c.idx as usize].0, c);
    }
    type Pw = (u8, [u8; 5], u8, u8, [u8; 32], u64, i64);
    let pview = |p: xorca::PendingWithdraw| -> Pw {
        (p.discriminator as u8, p.padding1, p.bump, p.withdraw_index, p.unstaker.to_bytes(), p.withdrawable_orca_amount, p.withdrawable_timestamp)
    };
    let stored = |c: &Claim| -> Pw { (2, [0; 5], c.bump, c.idx, staker_key(c.staker), c.amount, c.ts) };
    let lim = l.limit.unwrap_or(15);
    let mut want: Result<Vec<Pw>, &'static str> = Ok(vec![]);
    for i in 0..lim {
        let k = claims(l.staker)[i as usize].0;
        let Some(c) = here.get(&k) else { continue };
        match (&c.shape, &mut want) {
            (Shape::Good, Ok(v)) => v.push(stored(c)),
            (Shape::Lamports | Shape::Absent, _) => st.hit("claim address holding only lamports"),
            (Shape::Good, Err(_)) => {}
            (_, w) => *w = Err("a claim is malformed"),
        }
    }
    let some = matches!(&want, Ok(v) if v.len() > 1);
    let r = {
        let (r, f) = call(l, |rpc| xorca::fetch_pending_withdraws_for_staker(rpc, &Pubkey::new_from_array(staker_key(l.staker)), l.limit));
        (r.map(|v| v.into_iter().map(pview).collect::<Vec<Pw>>()), f)
    };
    verdict("pending withdrawals", r, want, st)?;
    if l.claims.iter().any(|c| c.staker == l.staker && c.idx >= lim && c.shape == Shape::Good) {
        st.hit("claim beyond the limit");
    }

    // the account-level helpers, on the addresses of this ledger's claims plus one absent
    let mut ks: Vec<Pubkey> = l.claims.iter().map(|c| Pubkey::new_from_array(claims(c.staker)[c.idx as usize].0)).collect();
    ks.dedup();
    let bad = ks.iter().any(|k| !matches!(here[&k.to_bytes()].shape, Shape::Good));
    let all: Result<Vec<(Pubkey, Pw)>, &'static str> =
        if bad { Err("a claim is malformed") } else { Ok(ks.iter().map(|k| (*k, stored(here[&k.to_bytes()]))).collect()) };
    verdict("all claims", {
        let (r, f) = call(l, |rpc| xorca::fetch_all_pending_withdraw(rpc, &ks));
        (r.map(|v| v.into_iter().map(|d| (d.address, pview(d.data))).collect::<Vec<_>>()), f)
    }, all.clone(), st)?;
    for k in ks.iter().take(3).chain([&Pubkey::new_from_array([0xAD; 32])]) {
        verdict("one claim", {
            let (r, f) = call(l, |rpc| xorca::fetch_pending_withdraw(rpc, k));
            (r.map(|d| (d.address, pview(d.data), Some(acct(&d.account)))), f)
        }, match here.get(&k.to_bytes()) {
            None => Err("the claim is absent"),
            Some(c) if c.shape == Shape::Good => Ok((*k, stored(c), raw(k))),
            Some(_) => Err("the claim is malformed"),
        }, st)?;
    }
    let absent = Pubkey::new_from_array([0xAB; 32]);
    let mut ks2 = ks.clone();
    let at = l.extras as usize % (ks.len() + 1);
    ks2.insert(at, absent);
    verdict("all claims, one absent", {
        let (r, f) = call(l, |rpc| xorca::fetch_all_pending_withdraw(rpc, &ks2));
        (r.map(|v| v.len()), f)
    }, Err("an account is missing"), st)?;
    let maybe: Result<Vec<(Pubkey, Option<Pw>)>, &'static str> = all.map(|v| {
        let mut v: Vec<_> = v.into_iter().map(|(k, p)| (k, Some(p))).collect();
        v.insert(at, (absent, None));
        v
    });
    verdict("maybe claims", {
        let (r, f) = call(l, |rpc| xorca::fetch_all_maybe_pending_withdraw(rpc, &ks2));
        (r.map(|v| v.into_iter().map(|m| match m {
            xorca::MaybeAccount::Exists(d) => (d.address, Some(pview(d.data))),
            xorca::MaybeAccount::NotFound(k) => (k, None),
        }).collect::<Vec<_>>()), f)
    }, maybe, st)?;
    verdict("one claim, maybe", {
        let k = Pubkey::new_from_array(claims(l.staker)[lim as usize].0);
        let (r, f) = call(l, move |rpc| xorca::fetch_maybe_pending_withdraw(rpc, &k));
        (r.map(|m| match m { xorca::MaybeAccount::Exists(d) => Some(pview(d.data)), _ => None }), f)
    }, match here.get(&claims(l.staker)[lim as usize].0) {
        None => Ok(None),
        Some(c) if c.shape == Shape::Good => Ok(Some(stored(c))),
        Some(_) => Err("a claim is malformed"),
    }, st)?;
    verdict("state, maybe", {
        let (r, f) = call(l, |rpc| xorca::fetch_maybe_state(rpc, &a.0));
        (r.map(|m| match m { xorca::MaybeAccount::Exists(d) => Some(view(d.data)), _ => None }), f)
    }, match l.state {
        Shape::Absent => Ok(None),
        Shape::Good => Ok(Some(st_want.clone())),
        _ => Err("the state account is malformed"),
    }, st)?;
    if some || (matches!(rate, Ok((n, s)) if n > 0 && s > 0)) {
        st.nontrivial(serde_json::to_string(l).unwrap(), || serde_json::to_value(l).unwrap());
    }
    Ok(())
}

/// constants the fetch helpers publish
fn c20k(_: &u8, st: &mut Stats) -> Check {
    for (n, g, w) in [
        ("ORCA_MINT_ADDRESS", xorca::ORCA_MINT_ADDRESS, ORCA),
        ("XORCA_MINT_ADDRESS", xorca::XORCA_MINT_ADDRESS, XORCA),
        ("TOKEN_PROGRAM_ADDRESS", xorca::TOKEN_PROGRAM_ADDRESS, TOKEN),
    ] {
        if g != w.to_string() {
            return Err(format!("{n} is {g}, the program uses {w}"));
        }
    }
    st.hit("constants");
    Ok(())
}

fn main() {
    install_signals();
    let p = Property {
        id: "C20",
        rule: "ledgers with state, vault, mint and claims present, absent, holding only lamports, truncated or with invalid tags; arbitrary figures; any limit; node failures injected at any request; non-trivial = two or more claims returned, or a defined positive exchange rate; distinct by full case",
        parts: vec![
            Box::new(P { name: "ledger", quick: 120_000, thorough: 3_000_000, strategy: ledger, test: c20 }),
            Box::new(P { name: "constants", quick: 8, thorough: 8, strategy: |_| any::<u8>().boxed(), test: c20k }),
        ],
        must_hit: &["rate returned", "rate refused: the vault holds less than the escrow", "pending withdrawals returned", "pending withdrawals refused: a claim is malformed", "node error", "claim address holding only lamports", "claim beyond the limit"],
        assumptions: &["the RPC node answers each request with the accounts asked for, in order (a mock RpcSender); the ledger does not change between the requests of one helper"],
    };
    let args: Vec<String> = std::env::args().collect();
    std::process::exit(match args.get(1).map(|s| s.as_str()) {
        Some("replay") => replay(&[p], &args[2]),
        _ => run_property(&p, args.get(2).map(|s| s.as_str()) == Some("thorough")),
    });
}
