//! A small, deterministic Solana runtime that executes the *real* staking program natively.
//!
//! - accounts live in a [`Bank`]; transactions are atomic lists of instructions;
//! - the program gets a genuinely serialized input buffer (pinocchio `deserialize`);
//! - its syscalls (CPI, PDA, sysvars, logs) land in this file;
//! - CPIs go to a model of the System program, a model of the ATA program's create
//!   instructions and to the real SPL Token processor;
//! - the runtime rules of the Solana VM are enforced: owner-only writes and debits, read-only
//!   accounts, lamport conservation, privilege escalation, PDA signers, 10 KiB growth,
//!   all-or-nothing transactions, rent-state transitions, removal of zero-lamport accounts.
//!
//! This file deliberately uses nothing of the program except its entry function.
#![allow(clippy::all)]

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub type Key = [u8; 32];

pub const SYSTEM: Key = [0; 32];
/// programs a client may add to its transactions without changing their effect
pub const BUDGET: Key = solana_program::pubkey!("ComputeBudget111111111111111111111111111111").to_bytes();
pub const MEMO: Key = solana_program::pubkey!("MemoSq4gqABAXKb96qnH8TysNcWxMyWCqXgDLGmfcHr").to_bytes();
pub const TOKEN: Key = spl_token::ID.to_bytes();
pub const ATA: Key =
    solana_program::pubkey!("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL").to_bytes();
pub const LOADER: Key =
    solana_program::pubkey!("BPFLoaderUpgradeab1e11111111111111111111111").to_bytes();

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Acct {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Key,
    pub executable: bool,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Meta {
    pub key: Key,
    pub signer: bool,
    pub writable: bool,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Ix {
    pub program: Key,
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum IxErr {
    /// `ProgramError::Custom` returned by the top-level program.
    Custom(u32),
    /// Another error value returned by the top-level program.
    Builtin(u64),
    /// A cross-program invocation failed (whole transaction aborts).
    Cpi(Key, String),
    /// A runtime rule was violated.
    Runtime(&'static str),
    /// The program panicked.
    Panic(String),
}

#[derive(Clone, Debug)]
pub struct TxResult {
    pub res: Result<(), (usize, IxErr)>,
    /// (top-level instruction index, bytes) of every `sol_log_data` of the staking program.
    pub events: Vec<(usize, Vec<u8>)>,
}

impl TxResult {
    pub fn ok(&self) -> bool {
        self.res.is_ok()
    }
    pub fn custom(&self) -> Option<u32> {
        match &self.res {
            Err((_, IxErr::Custom(c))) => Some(*c),
            _ => None,
        }
    }
}

pub const RENT_PER_BYTE_YEAR: u64 = 3480;
pub fn rent_min(len: usize) -> u64 {
    (128 + len as u64) * RENT_PER_BYTE_YEAR * 2
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Bank {
    pub accts: BTreeMap<Key, Acct>,
    pub now: i64,
}

impl Bank {
    pub fn get(&self, k: &Key) -> Acct {
        self.accts.get(k).cloned().unwrap_or_default()
    }
    pub fn lamports(&self, k: &Key) -> u64 {
        self.accts.get(k).map(|a| a.lamports).unwrap_or(0)
    }
    pub fn set(&mut self, k: Key, a: Acct) {
        self.accts.insert(k, a);
    }
}

/// What the loader calls: the input buffer in, zero or an encoded error out.
pub type Entry = unsafe extern "C-unwind" fn(*mut u8) -> u64;

/// The executable environment: which program id runs which native entry function.
#[derive(Clone, Copy)]
pub struct Env {
    pub program_id: Key,
    pub entry: Entry,
}

// ---------------------------------------------------------------------------------------------
// PDA helpers (cached: pure functions)

thread_local! {
    static FIND: RefCell<HashMap<(Vec<u8>, Key), Option<(Key, u8)>>> = RefCell::new(HashMap::new());
}

fn flat(seeds: &[&[u8]]) -> Vec<u8> {
    let mut v = Vec::new();
    for s in seeds {
        v.extend_from_slice(&(s.len() as u32).to_le_bytes());
        v.extend_from_slice(s);
    }
    v
}

pub fn create_pda(seeds: &[&[u8]], program: &Key) -> Option<Key> {
    solana_program::pubkey::Pubkey::create_program_address(
        seeds,
        &solana_program::pubkey::Pubkey::new_from_array(*program),
    )
    .ok()
    .map(|p| p.to_bytes())
}

pub fn find_pda(seeds: &[&[u8]], program: &Key) -> Option<(Key, u8)> {
    let k = (flat(seeds), *program);
    if let Some(r) = FIND.with(|c| c.borrow().get(&k).copied()) {
        return r;
    }
    let r = solana_program::pubkey::Pubkey::try_find_program_address(
        seeds,
        &solana_program::pubkey::Pubkey::new_from_array(*program),
    )
    .map(|(p, b)| (p.to_bytes(), b));
    FIND.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 200_000 {
            c.clear();
        }
        c.insert(k, r);
    });
    r
}

pub fn find_ata(wallet: &Key, mint: &Key) -> Key {
    find_pda(&[wallet, &TOKEN, mint], &ATA).unwrap().0
}

// ---------------------------------------------------------------------------------------------
// Execution context of the currently running program instruction

struct Slot {
    key: Key,
    raw: *mut u8,
    orig_len: usize,
    signer: bool,
    writable: bool,
}

struct Ctx {
    work: *mut BTreeMap<Key, Acct>,
    program: Key,
    slots: Vec<Slot>,
    now: i64,
    events: Vec<Vec<u8>>,
    return_data: Vec<u8>,
    return_program: Key,
}

thread_local! {
    static CTX: Cell<*mut Ctx> = const { Cell::new(std::ptr::null_mut()) };
    static BUF: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
}

struct Abort(IxErr);

fn abort_ix(e: IxErr) -> ! {
    resume_unwind(Box::new(Abort(e)))
}

fn ctx() -> &'static mut Ctx {
    let p = CTX.with(|c| c.get());
    assert!(!p.is_null(), "syscall outside of an instruction");
    unsafe { &mut *p }
}

const O_SIGNER: usize = 1;
const O_WRITABLE: usize = 2;
const O_EXEC: usize = 3;
const O_KEY: usize = 8;
const O_OWNER: usize = 40;
const O_LAMPORTS: usize = 72;
const O_LEN: usize = 80;
const O_DATA: usize = 88;
const GROW: usize = 10240;

impl Slot {
    unsafe fn lamports(&self) -> u64 {
        *(self.raw.add(O_LAMPORTS) as *const u64)
    }
    unsafe fn len(&self) -> usize {
        *(self.raw.add(O_LEN) as *const u64) as usize
    }
    unsafe fn owner(&self) -> Key {
        *(self.raw.add(O_OWNER) as *const Key)
    }
    unsafe fn data(&self) -> &[u8] {
        std::slice::from_raw_parts(self.raw.add(O_DATA), self.len())
    }
    /// program memory -> bank, enforcing the account modification rules
    unsafe fn pull(&self, work: &mut BTreeMap<Key, Acct>, program: &Key) -> Result<(), IxErr> {
        let a = work.get_mut(&self.key).unwrap();
        let is_owner = a.owner == *program;
        if self.len() > self.orig_len + GROW {
            return Err(IxErr::Runtime("InvalidRealloc"));
        }
        if *(self.raw.add(O_KEY) as *const Key) != self.key {
            return Err(IxErr::Runtime("account key overwritten"));
        }
        let lam = self.lamports();
        if lam != a.lamports {
            if lam < a.lamports && !is_owner {
                return Err(IxErr::Runtime("ExternalAccountLamportSpend"));
            }
            if !self.writable {
                return Err(IxErr::Runtime("ReadonlyLamportChange"));
            }
            a.lamports = lam;
        }
        let d = self.data();
        if d != &a.data[..] {
            if !is_owner {
                return Err(IxErr::Runtime("ExternalAccountDataModified"));
            }
            if !self.writable {
                return Err(IxErr::Runtime("ReadonlyDataModified"));
            }
            if a.executable {
                return Err(IxErr::Runtime("ExecutableDataModified"));
            }
            a.data = d.to_vec();
        }
        let o = self.owner();
        if o != a.owner {
            if !is_owner || !self.writable || a.data.iter().any(|b| *b != 0) {
                return Err(IxErr::Runtime("ModifiedProgramId"));
            }
            a.owner = o;
        }
        Ok(())
    }
    /// bank -> program memory
    unsafe fn push(&self, work: &BTreeMap<Key, Acct>) -> Result<(), IxErr> {
        let a = &work[&self.key];
        if a.data.len() > self.orig_len + GROW {
            return Err(IxErr::Runtime("InvalidRealloc"));
        }
        *(self.raw.add(O_LAMPORTS) as *mut u64) = a.lamports;
        *(self.raw.add(O_OWNER) as *mut Key) = a.owner;
        let old = self.len();
        *(self.raw.add(O_LEN) as *mut u64) = a.data.len() as u64;
        std::ptr::copy_nonoverlapping(a.data.as_ptr(), self.raw.add(O_DATA), a.data.len());
        if old > a.data.len() {
            std::ptr::write_bytes(self.raw.add(O_DATA + a.data.len()), 0, old - a.data.len());
        }
        Ok(())
    }
}

fn run_program(
    env: &Env,
    work: &mut BTreeMap<Key, Acct>,
    now: i64,
    ix: &Ix,
    events: &mut Vec<Vec<u8>>,
) -> Result<(), IxErr> {
    // --- serialize -----------------------------------------------------------------------
    let mut size = 8usize;
    let mut first: HashMap<Key, usize> = HashMap::new();
    for (i, m) in ix.metas.iter().enumerate() {
        if first.contains_key(&m.key) {
            size += 8;
        } else {
            first.insert(m.key, i);
            let l = work[&m.key].data.len();
            size += O_DATA + ((l + 15) & !15) + GROW + 16 + 8;
        }
    }
    size += 8 + ix.data.len() + 32 + 64;
    let mut buf = BUF.with(|b| std::mem::take(&mut *b.borrow_mut()));
    buf.clear();
    buf.resize(size / 8 + 4, 0u64);
    // pinocchio aligns to 8 (BPF_ALIGN_OF_U128); start at an 8-aligned address
    let base = buf.as_mut_ptr() as *mut u8;
    let mut slots: Vec<Slot> = Vec::new();
    unsafe {
        let mut p = base;
        *(p as *mut u64) = ix.metas.len() as u64;
        p = p.add(8);
        for (i, m) in ix.metas.iter().enumerate() {
            let f = first[&m.key];
            if f != i {
                *p = f as u8;
                p = p.add(8);
                continue;
            }
            let a = &work[&m.key];
            // flags of duplicates are merged (transaction-level privileges)
            let signer = ix.metas.iter().any(|x| x.key == m.key && x.signer);
            let writable = ix.metas.iter().any(|x| x.key == m.key && x.writable);
            *p = 0xff;
            *p.add(O_SIGNER) = signer as u8;
            *p.add(O_WRITABLE) = writable as u8;
            *p.add(O_EXEC) = a.executable as u8;
            *(p.add(O_KEY) as *mut Key) = m.key;
            *(p.add(O_OWNER) as *mut Key) = a.owner;
            *(p.add(O_LAMPORTS) as *mut u64) = a.lamports;
            *(p.add(O_LEN) as *mut u64) = a.data.len() as u64;
            std::ptr::copy_nonoverlapping(a.data.as_ptr(), p.add(O_DATA), a.data.len());
            slots.push(Slot {
                key: m.key,
                raw: p,
                orig_len: a.data.len(),
                signer,
                writable,
            });
            p = p.add(O_DATA + a.data.len() + GROW);
            p = ((p as usize + 7) & !7) as *mut u8;
            *(p as *mut u64) = u64::MAX; // rent epoch
            p = p.add(8);
        }
        *(p as *mut u64) = ix.data.len() as u64;
        p = p.add(8);
        std::ptr::copy_nonoverlapping(ix.data.as_ptr(), p, ix.data.len());
        p = p.add(ix.data.len());
        *(p as *mut Key) = ix.program;
    }
    let sum_before: u128 = slots.iter().map(|s| work[&s.key].lamports as u128).sum();
    let mut c = Ctx {
        work: work as *mut _,
        program: ix.program,
        slots,
        now,
        events: Vec::new(),
        return_data: vec![],
        return_program: [0; 32],
    };
    let prev = CTX.with(|x| x.replace(&mut c as *mut Ctx));
    // --- run -----------------------------------------------------------------------------
    let r = catch_unwind(AssertUnwindSafe(|| unsafe {
        (env.entry)(base)
    }));
    CTX.with(|x| x.set(prev));
    let r = match r {
        Ok(0) => Ok(()),
        // custom errors keep their number, except that number nought has an encoding of its own
        Ok(e) if e == 1 << 32 => Err(IxErr::Custom(0)),
        Ok(e) if e >> 32 == 0 => Err(IxErr::Custom(e as u32)),
        Ok(e) => Err(IxErr::Builtin(e)),
        Err(p) => match p.downcast::<Abort>() {
            Ok(a) => Err(a.0),
            Err(p) => {
                let m = if let Some(s) = p.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = p.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "panic".to_string()
                };
                Err(IxErr::Panic(m))
            }
        },
    };
    // --- read back -----------------------------------------------------------------------
    let r = r.and_then(|()| unsafe {
        for s in &c.slots {
            s.pull(work, &ix.program)?;
        }
        let sum_after: u128 = c.slots.iter().map(|s| work[&s.key].lamports as u128).sum();
        if sum_after != sum_before {
            return Err(IxErr::Runtime("UnbalancedInstruction"));
        }
        Ok(())
    });
    events.append(&mut c.events);
    BUF.with(|b| *b.borrow_mut() = buf);
    r
}

// ---------------------------------------------------------------------------------------------
// Transactions

/// Executes the instructions atomically. `signers` are the keys that signed the transaction;
/// per-instruction flags are merged over the whole message like in a real transaction.
pub fn process_tx(env: &Env, bank: &mut Bank, ixs: &[Ix]) -> TxResult {
    install_stubs();
    let (mut work, signer, writable) = load(bank, ixs);
    let mut out = TxResult {
        res: Ok(()),
        events: vec![],
    };
    for (i, ix) in ixs.iter().enumerate() {
        let ix = merged(ix, &signer, &writable);
        let r = if ix.program == env.program_id {
            let mut ev = vec![];
            let r = run_program(env, &mut work, bank.now, &ix, &mut ev);
            out.events.extend(ev.into_iter().map(|e| (i, e)));
            r
        } else {
            builtin(&mut work, bank.now, &ix).map_err(|e| IxErr::Cpi(ix.program, e))
        };
        if let Err(e) = r {
            out.res = Err((i, e));
            return out;
        }
    }
    if let Err(e) = finish(bank, work, &writable) {
        out.res = Err((ixs.len(), IxErr::Runtime(e)));
    }
    out
}

/// End-of-transaction rules: rent-state transitions, then commit (zero-lamport accounts vanish).
pub fn finish(
    bank: &mut Bank,
    work: BTreeMap<Key, Acct>,
    writable: &BTreeSet<Key>,
) -> Result<(), &'static str> {
    for k in writable {
        let a = &work[k];
        let (pl, plen) = bank.accts.get(k).map(|p| (p.lamports, p.data.len())).unwrap_or((0, 0));
        let exempt = a.lamports == 0 || a.lamports >= rent_min(a.data.len());
        if !exempt {
            let was_paying = pl > 0 && pl < rent_min(plen);
            if !(was_paying && plen == a.data.len() && a.lamports <= pl) {
                return Err("InsufficientFundsForRent");
            }
        }
    }
    for (k, a) in work {
        if a.lamports == 0 {
            bank.accts.remove(&k);
        } else {
            bank.accts.insert(k, a);
        }
    }
    Ok(())
}

/// Loads the accounts of a message and merges its privileges like the runtime does.
pub fn load(
    bank: &Bank,
    ixs: &[Ix],
) -> (BTreeMap<Key, Acct>, BTreeSet<Key>, BTreeSet<Key>) {
    let mut work = BTreeMap::new();
    let (mut signer, mut writable) = (BTreeSet::new(), BTreeSet::new());
    for m in ixs.iter().flat_map(|i| i.metas.iter()) {
        work.entry(m.key).or_insert_with(|| bank.get(&m.key));
        if m.signer {
            signer.insert(m.key);
        }
        if m.writable {
            writable.insert(m.key);
        }
    }
    (work, signer, writable)
}

pub fn merged(ix: &Ix, signer: &BTreeSet<Key>, writable: &BTreeSet<Key>) -> Ix {
    let mut ix = ix.clone();
    for m in ix.metas.iter_mut() {
        m.signer = signer.contains(&m.key);
        m.writable = writable.contains(&m.key);
    }
    ix
}

/// Runs the program once with an arbitrary program id (used for robustness checks); same rules.
pub fn process_raw(env: &Env, bank: &mut Bank, ix: &Ix) -> TxResult {
    let e2 = Env {
        program_id: ix.program,
        entry: env.entry,
    };
    process_tx(&e2, bank, std::slice::from_ref(ix))
}

// ---------------------------------------------------------------------------------------------
// Builtin programs

fn u32_at(d: &[u8], o: usize) -> Option<u32> {
    d.get(o..o + 4).map(|b| u32::from_le_bytes(b.try_into().unwrap()))
}
fn u64_at(d: &[u8], o: usize) -> Option<u64> {
    d.get(o..o + 8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))
}
fn key_at(d: &[u8], o: usize) -> Option<Key> {
    d.get(o..o + 32).map(|b| b.try_into().unwrap())
}

pub fn builtin(work: &mut BTreeMap<Key, Acct>, now: i64, ix: &Ix) -> Result<(), String> {
    if ix.program == SYSTEM {
        system(work, ix)
    } else if ix.program == TOKEN {
        token(work, ix)
    } else if ix.program == ATA {
        ata(work, now, ix)
    } else if ix.program == BUDGET || ix.program == MEMO {
        Ok(()) // no effect on accounts
    } else {
        Err("UnsupportedProgramId".into())
    }
}

fn need<'a>(ix: &'a Ix, i: usize) -> Result<&'a Meta, String> {
    ix.metas.get(i).ok_or_else(|| "NotEnoughAccountKeys".to_string())
}

fn sys_transfer(work: &mut BTreeMap<Key, Acct>, from: &Meta, to: &Meta, n: u64) -> Result<(), String> {
    if !from.signer {
        return Err("MissingRequiredSignature".into());
    }
    if !work[&from.key].data.is_empty() {
        return Err("InvalidArgument: from must not carry data".into());
    }
    if n > work[&from.key].lamports {
        return Err("ResultWithNegativeLamports".into());
    }
    if n > 0 {
        if work[&from.key].owner != SYSTEM {
            return Err("ExternalAccountLamportSpend".into());
        }
        if !from.writable || !to.writable {
            return Err("ReadonlyLamportChange".into());
        }
    }
    work.get_mut(&from.key).unwrap().lamports -= n;
    let t = work.get_mut(&to.key).unwrap();
    t.lamports = t.lamports.checked_add(n).ok_or("ArithmeticOverflow")?;
    Ok(())
}
fn sys_allocate(work: &mut BTreeMap<Key, Acct>, a: &Meta, space: u64) -> Result<(), String> {
    if !a.signer {
        return Err("MissingRequiredSignature".into());
    }
    let acct = work.get_mut(&a.key).unwrap();
    if !acct.data.is_empty() || acct.owner != SYSTEM {
        return Err("AccountAlreadyInUse".into());
    }
    if space > 10 * 1024 * 1024 {
        return Err("InvalidAccountDataLength".into());
    }
    if !a.writable {
        return Err("ReadonlyDataModified".into());
    }
    acct.data = vec![0; space as usize];
    Ok(())
}
fn sys_assign(work: &mut BTreeMap<Key, Acct>, a: &Meta, owner: &Key) -> Result<(), String> {
    let acct = work.get_mut(&a.key).unwrap();
    if acct.owner == *owner {
        return Ok(());
    }
    if !a.signer {
        return Err("MissingRequiredSignature".into());
    }
    if acct.owner != SYSTEM || !a.writable || acct.data.iter().any(|b| *b != 0) {
        return Err("ModifiedProgramId".into());
    }
    acct.owner = *owner;
    Ok(())
}

fn system(work: &mut BTreeMap<Key, Acct>, ix: &Ix) -> Result<(), String> {
    let bad = || "InvalidInstructionData".to_string();
    let d = &ix.data;
    match u32_at(d, 0).ok_or_else(bad)? {
        0 => {
            let (lam, space, owner) = (
                u64_at(d, 4).ok_or_else(bad)?,
                u64_at(d, 12).ok_or_else(bad)?,
                key_at(d, 20).ok_or_else(bad)?,
            );
            let (from, to) = (need(ix, 0)?.clone(), need(ix, 1)?.clone());
            if work[&to.key].lamports > 0 {
                return Err("AccountAlreadyInUse".into());
            }
            sys_allocate(work, &to, space)?;
            sys_assign(work, &to, &owner)?;
            sys_transfer(work, &from, &to, lam)
        }
        1 => sys_assign(work, &need(ix, 0)?.clone(), &key_at(d, 4).ok_or_else(bad)?),
        2 => sys_transfer(
            work,
            &need(ix, 0)?.clone(),
            &need(ix, 1)?.clone(),
            u64_at(d, 4).ok_or_else(bad)?,
        ),
        8 => sys_allocate(work, &need(ix, 0)?.clone(), u64_at(d, 4).ok_or_else(bad)?),
        _ => Err(bad()),
    }
}

fn token(work: &mut BTreeMap<Key, Acct>, ix: &Ix) -> Result<(), String> {
    use solana_program::account_info::AccountInfo;
    use solana_program::pubkey::Pubkey;
    struct Copy {
        key: Pubkey,
        owner: Pubkey,
        lamports: u64,
        data: Vec<u8>,
        exec: bool,
        signer: bool,
        writable: bool,
    }
    let mut uniq: Vec<Copy> = vec![];
    let mut idx = vec![];
    for m in &ix.metas {
        let k = Pubkey::new_from_array(m.key);
        if let Some(i) = uniq.iter().position(|c| c.key == k) {
            idx.push(i);
            continue;
        }
        let a = &work[&m.key];
        idx.push(uniq.len());
        uniq.push(Copy {
            key: k,
            owner: Pubkey::new_from_array(a.owner),
            lamports: a.lamports,
            data: a.data.clone(),
            exec: a.executable,
            signer: ix.metas.iter().any(|x| x.key == m.key && x.signer),
            writable: ix.metas.iter().any(|x| x.key == m.key && x.writable),
        });
    }
    {
        let infos: Vec<AccountInfo> = uniq
            .iter_mut()
            .map(|c| {
                AccountInfo::new(
                    &c.key,
                    c.signer,
                    c.writable,
                    &mut c.lamports,
                    &mut c.data,
                    &c.owner,
                    c.exec,
                    0,
                )
            })
            .collect();
        let list: Vec<AccountInfo> = idx.iter().map(|i| infos[*i].clone()).collect();
        spl_token::processor::Processor::process(&spl_token::ID, &list, &ix.data)
            .map_err(|e| format!("token: {e:?}"))?;
        // CloseAccount re-assigns to the system program through an in-place owner write; the
        // host build of spl-token leaves the owner alone and the zero-lamport account is
        // removed at the end of the transaction.
    }
    for c in uniq {
        let a = work.get_mut(&c.key.to_bytes()).unwrap();
        if a.lamports != c.lamports || a.data != c.data {
            if !c.writable {
                return Err("ReadonlyDataModified".into());
            }
            if a.data != c.data && a.owner != TOKEN {
                return Err("ExternalAccountDataModified".into());
            }
            if a.lamports > c.lamports && a.owner != TOKEN {
                return Err("ExternalAccountLamportSpend".into());
            }
            a.lamports = c.lamports;
            a.data = c.data;
        }
    }
    Ok(())
}

pub fn token_account(mint: &Key, owner: &Key, amount: u64) -> Vec<u8> {
    let mut d = vec![0u8; 165];
    d[0..32].copy_from_slice(mint);
    d[32..64].copy_from_slice(owner);
    d[64..72].copy_from_slice(&amount.to_le_bytes());
    d[108] = 1;
    d
}

pub fn mint_account(authority: Option<&Key>, supply: u64, decimals: u8, freeze: Option<&Key>) -> Vec<u8> {
    let mut d = vec![0u8; 82];
    if let Some(a) = authority {
        d[0] = 1;
        d[4..36].copy_from_slice(a);
    }
    d[36..44].copy_from_slice(&supply.to_le_bytes());
    d[44] = decimals;
    d[45] = 1;
    if let Some(a) = freeze {
        d[46] = 1;
        d[50..82].copy_from_slice(a);
    }
    d
}

fn ata(work: &mut BTreeMap<Key, Acct>, _now: i64, ix: &Ix) -> Result<(), String> {
    let idempotent = match ix.data.first() {
        None | Some(0) => false,
        Some(1) => true,
        _ => return Err("InvalidInstructionData".into()),
    };
    let (funder, acc, wallet, mint, sysp, tokp) = (
        need(ix, 0)?.clone(),
        need(ix, 1)?.clone(),
        need(ix, 2)?.clone(),
        need(ix, 3)?.clone(),
        need(ix, 4)?.clone(),
        need(ix, 5)?.clone(),
    );
    let addr = find_pda(&[&wallet.key, &tokp.key, &mint.key], &ATA)
        .ok_or("InvalidSeeds")?
        .0;
    if addr != acc.key {
        return Err("InvalidSeeds".into());
    }
    if idempotent && work[&acc.key].owner == tokp.key {
        let d = &work[&acc.key].data;
        if d.len() == 165 && d[108] != 0 {
            if d[32..64] != wallet.key {
                return Err("InvalidOwner".into());
            }
            if d[0..32] != mint.key {
                return Err("InvalidAccountData".into());
            }
            return Ok(());
        }
    }
    if work[&acc.key].owner != SYSTEM {
        return Err("IllegalOwner".into());
    }
    if tokp.key != TOKEN || sysp.key != SYSTEM {
        return Err("IncorrectProgramId".into());
    }
    if work[&mint.key].owner != TOKEN || work[&mint.key].data.len() != 82 || work[&mint.key].data[45] != 1 {
        return Err("InvalidMint".into());
    }
    let signer_acc = Meta {
        signer: true,
        ..acc.clone()
    };
    let min = rent_min(165);
    let have = work[&acc.key].lamports;
    if have < min {
        sys_transfer(work, &funder, &acc, min - have)?;
    }
    sys_allocate(work, &signer_acc, 165)?;
    sys_assign(work, &signer_acc, &TOKEN)?;
    work.get_mut(&acc.key).unwrap().data = token_account(&mint.key, &wallet.key, 0);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Syscalls of the program under test (declared `extern "C-unwind"` by the vendored pinocchio)

#[repr(C)]
struct CMeta {
    key: *const Key,
    writable: bool,
    signer: bool,
}
#[repr(C)]
struct CIx {
    program: *const Key,
    metas: *const CMeta,
    metas_len: u64,
    data: *const u8,
    data_len: u64,
}
#[repr(C)]
struct CInfo {
    key: *const Key,
    lamports: *const u64,
    data_len: u64,
    data: *const u8,
    owner: *const Key,
    rent_epoch: u64,
    signer: bool,
    writable: bool,
    executable: bool,
}
#[repr(C)]
struct Slice {
    ptr: *const u8,
    len: u64,
}

unsafe fn sl<'a, T>(p: *const T, n: u64) -> &'a [T] {
    if n == 0 {
        &[]
    } else {
        std::slice::from_raw_parts(p, n as usize)
    }
}

unsafe fn seeds_of<'a>(p: *const u8, n: u64) -> Vec<&'a [u8]> {
    sl(p as *const Slice, n).iter().map(|s| sl(s.ptr, s.len)).collect()
}

#[no_mangle]
pub unsafe extern "C-unwind" fn sol_invoke_signed_c(
    ix: *const u8,
    infos: *const u8,
    infos_len: u64,
    signers: *const u8,
    signers_len: u64,
) -> u64 {
    let c = ctx();
    let ix = &*(ix as *const CIx);
    let program = *ix.program;
    let metas: Vec<Meta> = sl(ix.metas, ix.metas_len)
        .iter()
        .map(|m| Meta {
            key: *m.key,
            signer: m.signer,
            writable: m.writable,
        })
        .collect();
    let data = sl(ix.data, ix.data_len).to_vec();
    let infos = sl(infos as *const CInfo, infos_len);
    let mut pda_signers = vec![];
    for s in sl(signers as *const Slice, signers_len) {
        let seeds = seeds_of(s.ptr, s.len);
        match create_pda(&seeds, &c.program) {
            Some(k) => pda_signers.push(k),
            None => abort_ix(IxErr::Cpi(program, "InvalidSeeds for signer".into())),
        }
    }
    if !c.slots.iter().any(|s| s.key == program) {
        abort_ix(IxErr::Cpi(program, "MissingAccount: program not passed".into()));
    }
    let work = &mut *c.work;
    let mut touched: Vec<usize> = vec![];
    for m in &metas {
        let si = match c.slots.iter().position(|s| s.key == m.key) {
            Some(i) => i,
            None => abort_ix(IxErr::Cpi(program, "MissingAccount".into())),
        };
        if !infos.iter().any(|i| *i.key == m.key) {
            abort_ix(IxErr::Cpi(program, "MissingAccount info".into()));
        }
        let s = &c.slots[si];
        if m.writable && !s.writable {
            abort_ix(IxErr::Cpi(program, "writable privilege escalated".into()));
        }
        if m.signer && !(s.signer || pda_signers.contains(&m.key)) {
            abort_ix(IxErr::Cpi(program, "signer privilege escalated".into()));
        }
        if !touched.contains(&si) {
            touched.push(si);
        }
    }
    for si in &touched {
        if let Err(e) = c.slots[*si].pull(work, &c.program) {
            abort_ix(e);
        }
    }
    let before: u128 = touched.iter().map(|i| work[&c.slots[*i].key].lamports as u128).sum();
    let call = Ix {
        program,
        metas,
        data,
    };
    if let Err(e) = builtin(work, c.now, &call) {
        abort_ix(IxErr::Cpi(program, e));
    }
    let after: u128 = touched.iter().map(|i| work[&c.slots[*i].key].lamports as u128).sum();
    if before != after {
        abort_ix(IxErr::Runtime("UnbalancedInstruction"));
    }
    for si in &touched {
        let s = &c.slots[*si];
        if s.writable {
            if let Err(e) = s.push(work) {
                abort_ix(e);
            }
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C-unwind" fn sol_create_program_address(
    seeds: *const u8,
    n: u64,
    program: *const u8,
    out: *const u8,
) -> u64 {
    let seeds = seeds_of(seeds, n);
    match create_pda(&seeds, &*(program as *const Key)) {
        Some(k) => {
            *(out as *mut Key) = k;
            0
        }
        None => 1,
    }
}

#[no_mangle]
pub unsafe extern "C-unwind" fn sol_try_find_program_address(
    seeds: *const u8,
    n: u64,
    program: *const u8,
    out: *const u8,
    bump: *const u8,
) -> u64 {
    let seeds = seeds_of(seeds, n);
    match find_pda(&seeds, &*(program as *const Key)) {
        Some((k, b)) => {
            *(out as *mut Key) = k;
            *(bump as *mut u8) = b;
            0
        }
        None => 1,
    }
}

#[no_mangle]
pub unsafe extern "C-unwind" fn sol_sha256(vals: *const u8, n: u64, out: *mut u8) -> u64 {
    let parts = seeds_of(vals, n);
    let h = solana_program::hash::hashv(&parts);
    *(out as *mut Key) = h.to_bytes();
    0
}

#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_clock_sysvar(addr: *mut u8) -> u64 {
    let now = ctx().now;
    let p = addr as *mut u64;
    // slot, start of the epoch and epochs vary with the time, but follow no rule a program could use
    let h = (now as u64 ^ 0x9e37_79b9_7f4a_7c15).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    let h = (h ^ (h >> 31)).wrapping_mul(0x94d0_49bb_1331_11eb);
    *p = h >> (h % 61);
    *(p.add(1) as *mut i64) = now.saturating_sub((h >> 20) as i64 >> (h % 43));
    *p.add(2) = h >> 50;
    *p.add(3) = (h >> 50) + 1;
    *(p.add(4) as *mut i64) = now;
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_rent_sysvar(addr: *mut u8) -> u64 {
    let p = addr as *mut u64;
    *p = RENT_PER_BYTE_YEAR;
    *(p.add(1) as *mut f64) = 2.0;
    *(p.add(2) as *mut u8) = 50;
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_sysvar(
    id: *const u8,
    out: *mut u8,
    offset: u64,
    len: u64,
) -> u64 {
    let id = *(id as *const Key);
    let mut buf = vec![];
    if id == pinocchio::sysvars::clock::CLOCK_ID {
        let mut b = [0u64; 5];
        sol_get_clock_sysvar(b.as_mut_ptr() as *mut u8);
        for x in b {
            buf.extend_from_slice(&x.to_le_bytes());
        }
    } else if id == pinocchio::sysvars::rent::RENT_ID {
        let mut b = [0u64; 3];
        sol_get_rent_sysvar(b.as_mut_ptr() as *mut u8);
        for x in b {
            buf.extend_from_slice(&x.to_le_bytes());
        }
        buf.truncate(17);
    } else {
        return 2;
    }
    if offset.saturating_add(len) > buf.len() as u64 {
        return 1;
    }
    std::ptr::copy_nonoverlapping(buf.as_ptr().add(offset as usize), out, len as usize);
    0
}

#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_(_m: *const u8, _n: u64) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_64_(_a: u64, _b: u64, _c: u64, _d: u64, _e: u64) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_compute_units_() {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_pubkey(_p: *const u8) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_remaining_compute_units() -> u64 {
    200_000
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_stack_height() -> u64 {
    1
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_data(d: *const u8, n: u64) {
    let parts = seeds_of(d, n);
    let mut v = vec![];
    for p in parts {
        v.extend_from_slice(p);
    }
    ctx().events.push(v);
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_set_return_data(d: *const u8, n: u64) {
    let c = ctx();
    c.return_data = sl(d, n).to_vec();
    c.return_program = c.program;
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_return_data(d: *mut u8, n: u64, p: *mut Key) -> u64 {
    let c = ctx();
    let l = c.return_data.len().min(n as usize);
    std::ptr::copy_nonoverlapping(c.return_data.as_ptr(), d, l);
    *p = c.return_program;
    c.return_data.len() as u64
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memcpy_(d: *mut u8, s: *const u8, n: u64) {
    std::ptr::copy_nonoverlapping(s, d, n as usize)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memmove_(d: *mut u8, s: *const u8, n: u64) {
    std::ptr::copy(s, d, n as usize)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memset_(d: *mut u8, c: u8, n: u64) {
    std::ptr::write_bytes(d, c, n as usize)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memcmp_(a: *const u8, b: *const u8, n: u64, r: *mut i32) {
    let (x, y) = (sl(a, n), sl(b, n));
    *r = match x.cmp(y) {
        std::cmp::Ordering::Less => -1,
        std::cmp::Ordering::Equal => 0,
        std::cmp::Ordering::Greater => 1,
    };
}

// ---------------------------------------------------------------------------------------------
// solana-program stubs (used by the native SPL Token processor): silence logs

struct Quiet;
impl solana_program::program_stubs::SyscallStubs for Quiet {
    fn sol_log(&self, _m: &str) {}
    fn sol_get_rent_sysvar(&self, addr: *mut u8) -> u64 {
        unsafe { sol_get_rent_sysvar(addr) }
    }
}

/// Installs quiet host stubs once (and a panic hook that stays silent for caught panics).
pub fn install_stubs() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        solana_program::program_stubs::set_syscall_stubs(Box::new(Quiet));
        if std::env::var_os("XH_DEBUG").is_none() {
            // panics are caught and reported as results
            std::panic::set_hook(Box::new(|_| {}));
        }
    });
}
