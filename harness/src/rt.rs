//! A small stand-in for the Solana runtime: it runs the real
//! `solana_slashing_program::processor::process_instruction` (and the real
//! `spl_record` processor and the real Ed25519 precompile) on accounts laid out
//! in the loader's input format, and enforces the runtime's account rules.
use {
    solana_instruction::{BorrowedAccountMeta, BorrowedInstruction},
    solana_program::{
        account_info::AccountInfo,
        clock::Clock,
        entrypoint::{ProgramResult, MAX_PERMITTED_DATA_INCREASE, SUCCESS},
        epoch_schedule::EpochSchedule,
        instruction::{AccountMeta, Instruction},
        program_error::ProgramError,
        program_stubs::SyscallStubs,
        pubkey::Pubkey,
        rent::Rent,
    },
    std::{
        cell::RefCell,
        collections::HashMap,
        panic::{catch_unwind, AssertUnwindSafe},
    },
};

pub mod ids {
    use solana_program::pubkey::Pubkey;
    pub fn slashing() -> Pubkey {
        // The published program id, not the one the code under test declares.
        solana_program::pubkey!("S1ashing11111111111111111111111111111111111")
    }
    pub fn system() -> Pubkey {
        solana_program::pubkey!("11111111111111111111111111111111")
    }
    pub fn ed25519() -> Pubkey {
        solana_program::pubkey!("Ed25519SigVerify111111111111111111111111111")
    }
    pub fn ixsysvar() -> Pubkey {
        solana_program::pubkey!("Sysvar1nstructions1111111111111111111111111")
    }
    pub fn sysvar_owner() -> Pubkey {
        solana_program::pubkey!("Sysvar1111111111111111111111111111111111111")
    }
    pub fn clock() -> Pubkey {
        solana_program::pubkey!("SysvarC1ock11111111111111111111111111111111")
    }
    pub fn native_loader() -> Pubkey {
        solana_program::pubkey!("NativeLoader1111111111111111111111111111111")
    }
    pub fn record() -> Pubkey {
        spl_record::id()
    }
    /// a program that only forwards (see `Ix::inner`)
    pub fn proxy() -> Pubkey {
        Pubkey::new_from_array([0x77; 32])
    }
    /// a program that does nothing
    pub fn noop() -> Pubkey {
        Pubkey::new_from_array([0x78; 32])
    }
    pub fn upgrader() -> Pubkey {
        std::str::FromStr::from_str("BPFLoaderUpgradeab1e11111111111111111111111").unwrap()
    }
    pub fn reserved(k: &Pubkey) -> bool {
        [system(), ed25519(), ixsysvar(), clock(), native_loader(), sysvar_owner()].contains(k)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Acct {
    pub lamports: u64,
    pub owner: Pubkey,
    pub data: Vec<u8>,
    pub executable: bool,
}
impl Default for Acct {
    fn default() -> Self {
        Acct { lamports: 0, owner: ids::system(), data: vec![], executable: false }
    }
}
pub type World = HashMap<Pubkey, Acct>;

#[derive(Clone, Debug)]
pub struct Env {
    pub clock: Clock,
    pub schedule: EpochSchedule,
    pub rent: Rent,
}
impl Default for Env {
    fn default() -> Self {
        Env {
            clock: Clock::default(),
            schedule: EpochSchedule { warmup: false, first_normal_epoch: 0, first_normal_slot: 0, ..EpochSchedule::default() },
            rent: Rent::default(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Ix {
    pub program: Pubkey,
    pub accounts: Vec<AccountMeta>,
    pub data: Vec<u8>,
    /// what the proxy program invokes, in order
    pub inner: Vec<Ix>,
}
impl From<Instruction> for Ix {
    fn from(i: Instruction) -> Self {
        Ix { program: i.program_id, accounts: i.accounts, data: i.data, inner: vec![] }
    }
}

/// One invocation of the slashing program, as recorded
#[derive(Clone, Debug)]
pub struct Invocation {
    pub data: Vec<u8>,
    /// the accounts, with what the runtime lets the program do with them
    pub metas: Vec<AccountMeta>,
    /// index of the running top-level instruction, and how deep below it this is
    pub current: usize,
    pub depth: usize,
    pub pre: Vec<(Pubkey, Acct)>,
    /// those that changed
    pub post: Vec<(Pubkey, Acct)>,
    pub result: Result<(), Fail>,
}
thread_local! {
    static TAPE: RefCell<Option<Vec<Invocation>>> = const { RefCell::new(None) };
    static CURRENT: RefCell<usize> = const { RefCell::new(0) };
}
/// Runs `f`, recording the invocations of the slashing program.
pub fn record_invocations<T>(f: impl FnOnce() -> T) -> (T, Vec<Invocation>) {
    TAPE.with(|t| *t.borrow_mut() = Some(vec![]));
    let x = f();
    (x, TAPE.with(|t| t.borrow_mut().take().unwrap()))
}
fn record(metas: &[AccountMeta], data: &[u8], depth: usize, pre: &World, post: &World, result: &Result<(), Fail>) {
    TAPE.with(|t| {
        let mut t = t.borrow_mut();
        let Some(t) = t.as_mut() else { return };
        let mut keys: Vec<Pubkey> = vec![];
        for m in metas {
            if !keys.contains(&m.pubkey) {
                keys.push(m.pubkey);
            }
        }
        let get = |w: &World, k: &Pubkey| w.get(k).cloned().unwrap_or_default();
        t.push(Invocation {
            data: data.to_vec(),
            metas: metas.to_vec(),
            current: CURRENT.with(|c| *c.borrow()),
            depth,
            pre: keys.iter().map(|k| (*k, get(pre, k))).collect(),
            post: if result.is_ok() {
                keys.iter().filter(|k| get(pre, k) != get(post, k)).map(|k| (*k, get(post, k))).collect()
            } else {
                vec![]
            },
            result: result.clone(),
        });
    });
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fail {
    /// program error code of the slashing program
    Custom(u32),
    /// any other ProgramError of the program
    Other(String),
    /// the program aborted
    Panic(String),
    /// a rule of the runtime was broken by (or around) the program
    Runtime(String),
    /// the Ed25519 program refused
    Precompile,
    /// another program refused
    Foreign(String),
}
impl Fail {
    pub fn text(&self) -> String {
        match self {
            Fail::Custom(c) => format!("custom:{c}"),
            Fail::Other(s) => format!("other:{s}"),
            Fail::Panic(s) => format!("panic:{s}"),
            Fail::Runtime(s) => format!("runtime:{s}"),
            Fail::Precompile => "precompile".into(),
            Fail::Foreign(s) => format!("foreign:{s}"),
        }
    }
}

/// Outcome of a transaction. `program` lists, in execution order, the outcome of
/// every invocation of the slashing program itself (instruction level).
#[derive(Clone, Debug)]
pub struct TxOut {
    pub result: Result<(), (usize, Fail)>,
    pub program: Vec<Result<(), Fail>>,
}

// ---------------------------------------------------------------- syscalls

struct Frame {
    program: Pubkey,
    /// state of each account as the runtime last validated it
    base: HashMap<Pubkey, Acct>,
    writable: HashMap<Pubkey, bool>,
    signer: HashMap<Pubkey, bool>,
}
#[derive(Default)]
struct Ctx {
    env: Env,
    frames: Vec<Frame>,
}
thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, _message: &str) {}
    fn sol_log_compute_units(&self) {}
    fn sol_remaining_compute_units(&self) -> u64 {
        1_000_000
    }
    fn sol_log_data(&self, _fields: &[&[u8]]) {}
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        CTX.with(|c| unsafe { *(p as *mut Clock) = c.borrow().env.clock.clone() });
        SUCCESS
    }
    fn sol_get_epoch_schedule_sysvar(&self, p: *mut u8) -> u64 {
        CTX.with(|c| unsafe { *(p as *mut EpochSchedule) = c.borrow().env.schedule.clone() });
        SUCCESS
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        CTX.with(|c| unsafe { *(p as *mut Rent) = c.borrow().env.rent.clone() });
        SUCCESS
    }
    fn sol_get_stack_height(&self) -> u64 {
        CTX.with(|c| c.borrow().frames.len() as u64)
    }
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        cpi(ix, infos, seeds)
    }
}

pub fn install() {
    use std::sync::Once;
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
        std::panic::set_hook(Box::new(|i| {
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{loc}: {msg}"));
        }));
    });
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Cross-program call made by native code running under `run_program`; only the
/// system program is callable from the programs run here.
fn cpi(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    let caller = CTX.with(|c| c.borrow().frames.last().map(|f| f.program)).unwrap();
    let mut pdas = vec![];
    for s in seeds {
        pdas.push(
            Pubkey::create_program_address(s, &caller).map_err(|_| ProgramError::InvalidSeeds)?,
        );
    }
    if ix.program_id != ids::system() {
        return Err(ProgramError::UnsupportedSysvar);
    }
    // the callee program must be among the accounts passed
    if !infos.iter().any(|i| *i.key == ix.program_id) {
        return Err(ProgramError::NotEnoughAccountKeys);
    }
    let mut local: Vec<(Pubkey, Acct)> = vec![];
    let mut metas = vec![];
    for m in &ix.accounts {
        let info = infos
            .iter()
            .find(|i| *i.key == m.pubkey)
            .ok_or(ProgramError::NotEnoughAccountKeys)?;
        let (w, s) = CTX.with(|c| {
            let c = c.borrow();
            let f = c.frames.last().unwrap();
            (
                *f.writable.get(&m.pubkey).unwrap_or(&false),
                *f.signer.get(&m.pubkey).unwrap_or(&false),
            )
        });
        if m.is_writable && !w {
            return Err(ProgramError::Custom(0xdead_0001)); // privilege escalation
        }
        if m.is_signer && !(s || pdas.contains(&m.pubkey)) {
            return Err(ProgramError::MissingRequiredSignature);
        }
        // what the caller did so far must be legal
        let cur = snapshot(info);
        let base = CTX.with(|c| c.borrow().frames.last().unwrap().base.get(&m.pubkey).cloned());
        if let Some(base) = base {
            check_change(&caller, w, &base, &cur).map_err(|_| ProgramError::Custom(0xdead_0002))?;
        }
        if !local.iter().any(|(k, _)| *k == m.pubkey) {
            local.push((m.pubkey, cur));
        }
        metas.push(m.clone());
    }
    let mut map: World = local.iter().cloned().collect();
    system_program(&mut map, &metas, &ix.data).map_err(|_| ProgramError::Custom(0xdead_0003))?;
    for (k, _) in &local {
        let info = infos.iter().find(|i| i.key == k).unwrap();
        let new = &map[k];
        **info.try_borrow_mut_lamports()? = new.lamports;
        if info.data_len() != new.data.len() {
            info.realloc(new.data.len(), false)?;
        }
        info.try_borrow_mut_data()?.copy_from_slice(&new.data);
        if *info.owner != new.owner {
            info.assign(&new.owner);
        }
        CTX.with(|c| {
            c.borrow_mut().frames.last_mut().unwrap().base.insert(*k, new.clone());
        });
    }
    Ok(())
}

fn snapshot(i: &AccountInfo) -> Acct {
    let owner = unsafe { std::ptr::read_volatile(i.owner as *const Pubkey) };
    Acct {
        lamports: i.lamports(),
        owner,
        data: i.data.borrow().to_vec(),
        executable: i.executable,
    }
}

/// Which changes may `program` make to an account?
fn check_change(program: &Pubkey, writable: bool, pre: &Acct, post: &Acct) -> Result<(), String> {
    if pre.lamports != post.lamports {
        if !writable {
            return Err("ReadonlyLamportChange".into());
        }
        if post.lamports < pre.lamports && pre.owner != *program {
            return Err("ExternalAccountLamportSpend".into());
        }
        if pre.executable {
            return Err("ExecutableLamportChange".into());
        }
    }
    if pre.data != post.data {
        if !writable {
            return Err("ReadonlyDataModified".into());
        }
        if pre.owner != *program {
            return Err("ExternalAccountDataModified".into());
        }
        if post.data.len() > pre.data.len() + MAX_PERMITTED_DATA_INCREASE {
            return Err("InvalidRealloc".into());
        }
    }
    if pre.owner != post.owner
        && (!writable || pre.owner != *program || pre.executable || post.data.iter().any(|b| *b != 0))
    {
        return Err("ModifiedProgramId".into());
    }
    Ok(())
}

// ------------------------------------------------------------ system program

fn system_program(w: &mut World, metas: &[AccountMeta], data: &[u8]) -> Result<(), String> {
    use solana_system_interface::instruction::SystemInstruction as S;
    let ix: S = bincode::deserialize(data).map_err(|_| "InvalidInstructionData".to_string())?;
    let meta = |i: usize| metas.get(i).ok_or("NotEnoughAccountKeys".to_string());
    fn get(w: &World, k: &Pubkey) -> Acct {
        w.get(k).cloned().unwrap_or_default()
    }
    fn transfer(w: &mut World, f: &AccountMeta, t: &AccountMeta, amt: u64) -> Result<(), String> {
        if !f.is_signer {
            return Err("MissingRequiredSignature".into());
        }
        let mut a = get(w, &f.pubkey);
        if !a.data.is_empty() || a.owner != ids::system() {
            return Err("InvalidArgument".into());
        }
        if a.lamports < amt {
            return Err("ResultWithNegativeLamports".into());
        }
        if amt > 0 && (!f.is_writable || !t.is_writable) {
            return Err("ReadonlyLamportChange".into());
        }
        a.lamports -= amt;
        w.insert(f.pubkey, a);
        let mut b = get(w, &t.pubkey);
        b.lamports = b.lamports.checked_add(amt).ok_or("ArithmeticOverflow")?;
        w.insert(t.pubkey, b);
        Ok(())
    }
    match ix {
        S::Transfer { lamports } => transfer(w, meta(0)?, meta(1)?, lamports),
        S::Assign { owner } => {
            let m = meta(0)?;
            let mut a = get(w, &m.pubkey);
            if a.owner == owner {
                return Ok(());
            }
            if !m.is_signer {
                return Err("MissingRequiredSignature".into());
            }
            if a.owner != ids::system() || !m.is_writable || a.data.iter().any(|b| *b != 0) {
                return Err("ModifiedProgramId".into());
            }
            a.owner = owner;
            w.insert(m.pubkey, a);
            Ok(())
        }
        S::Allocate { space } => {
            let m = meta(0)?;
            let mut a = get(w, &m.pubkey);
            if !m.is_signer {
                return Err("MissingRequiredSignature".into());
            }
            if !a.data.is_empty() || a.owner != ids::system() || !m.is_writable {
                return Err("AccountAlreadyInUse".into());
            }
            a.data = vec![0; space as usize];
            w.insert(m.pubkey, a);
            Ok(())
        }
        S::CreateAccount { lamports, space, owner } => {
            let m = meta(1)?;
            let mut a = get(w, &m.pubkey);
            if a.lamports > 0 {
                return Err("AccountAlreadyInUse".into());
            }
            if !m.is_signer {
                return Err("MissingRequiredSignature".into());
            }
            if !a.data.is_empty() || a.owner != ids::system() || !m.is_writable {
                return Err("AccountAlreadyInUse".into());
            }
            a.data = vec![0; space as usize];
            a.owner = owner;
            w.insert(m.pubkey, a);
            transfer(w, meta(0)?, m, lamports)
        }
        _ => Err("unsupported system instruction".into()),
    }
}

// ------------------------------------------------------------- program calls

type Proc = fn(&Pubkey, &[AccountInfo], &[u8]) -> ProgramResult;

/// Runs a native program on the loader's serialization of `metas`.
fn run_program(
    proc: Proc,
    program: Pubkey,
    w: &mut World,
    metas: &[AccountMeta],
    data: &[u8],
) -> Result<(), Fail> {
    // ---- serialize
    let mut uniq: Vec<Pubkey> = vec![];
    let mut writable: HashMap<Pubkey, bool> = HashMap::new();
    let mut signer: HashMap<Pubkey, bool> = HashMap::new();
    for m in metas {
        *writable.entry(m.pubkey).or_default() |= m.is_writable;
        *signer.entry(m.pubkey).or_default() |= m.is_signer;
    }
    // u128 storage keeps the buffer 16-aligned
    let mut size = 8 + 8 + data.len() + 32 + 64;
    for m in metas {
        size += 1 + 7 + 3 + 4 + 32 + 32 + 8 + 8 + MAX_PERMITTED_DATA_INCREASE + 16 + 8;
        size += w.get(&m.pubkey).map_or(0, |a| a.data.len());
    }
    let mut store: Vec<u128> = vec![0; size / 16 + 2];
    let buf = store.as_mut_ptr() as *mut u8;
    let mut o = 0usize;
    macro_rules! put {
        ($b:expr) => {{
            let b: &[u8] = $b;
            unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), buf.add(o), b.len()) };
            o += b.len();
        }};
    }
    put!(&(metas.len() as u64).to_le_bytes());
    for m in metas {
        if let Some(i) = uniq.iter().position(|k| *k == m.pubkey) {
            let first = metas.iter().position(|x| x.pubkey == uniq[i]).unwrap();
            put!(&[first as u8, 0, 0, 0, 0, 0, 0, 0]);
            continue;
        }
        uniq.push(m.pubkey);
        let a = w.get(&m.pubkey).cloned().unwrap_or_default();
        put!(&[0xff, signer[&m.pubkey] as u8, writable[&m.pubkey] as u8, a.executable as u8]);
        put!(&[0u8; 4]);
        put!(m.pubkey.as_ref());
        put!(a.owner.as_ref());
        put!(&a.lamports.to_le_bytes());
        put!(&(a.data.len() as u64).to_le_bytes());
        put!(&a.data);
        o += MAX_PERMITTED_DATA_INCREASE;
        // deserialize_account_info aligns the *offset* to 8
        o += (8 - o % 8) % 8;
        put!(&u64::MAX.to_le_bytes());
    }
    put!(&(data.len() as u64).to_le_bytes());
    put!(data);
    put!(program.as_ref());

    let (pid, infos, input) = unsafe { solana_program::entrypoint::deserialize(buf) };
    let base: HashMap<Pubkey, Acct> =
        uniq.iter().map(|k| (*k, w.get(k).cloned().unwrap_or_default())).collect();
    let before: u128 = base.values().map(|a| a.lamports as u128).sum();
    CTX.with(|c| {
        c.borrow_mut().frames.push(Frame {
            program,
            base,
            writable: writable.clone(),
            signer: signer.clone(),
        })
    });
    let res = catch_unwind(AssertUnwindSafe(|| proc(pid, &infos, input)));
    let frame = CTX.with(|c| c.borrow_mut().frames.pop().unwrap());
    match res {
        Err(_) => return Err(Fail::Panic(last_panic())),
        Ok(Err(ProgramError::Custom(c))) if c >= 0xdead_0000 => {
            return Err(Fail::Runtime(format!("call to another program failed ({})", c & 15)))
        }
        Ok(Err(ProgramError::Custom(c))) => return Err(Fail::Custom(c)),
        Ok(Err(e)) => return Err(Fail::Other(format!("{e:?}"))),
        Ok(Ok(())) => (),
    }
    let mut after: u128 = 0;
    let mut done: Vec<Pubkey> = vec![];
    for i in &infos {
        if done.contains(i.key) {
            continue;
        }
        done.push(*i.key);
        let post = snapshot(i);
        after += post.lamports as u128;
        check_change(&program, writable[i.key], &frame.base[i.key], &post).map_err(Fail::Runtime)?;
        if w.get(i.key).cloned().unwrap_or_default() != post {
            w.insert(*i.key, post);
        }
    }
    if before != after {
        return Err(Fail::Runtime("UnbalancedInstruction".into()));
    }
    Ok(())
}

fn sysvar_data(ixs: &[Ix], current: usize) -> Vec<u8> {
    let b: Vec<BorrowedInstruction> = ixs
        .iter()
        .map(|i| BorrowedInstruction {
            program_id: &i.program,
            accounts: i
                .accounts
                .iter()
                .map(|m| BorrowedAccountMeta {
                    pubkey: &m.pubkey,
                    is_signer: m.is_signer,
                    is_writable: m.is_writable,
                })
                .collect(),
            data: &i.data,
        })
        .collect();
    let mut d = solana_instructions_sysvar::construct_instructions_data(&b);
    solana_instructions_sysvar::store_current_index_checked(&mut d, current as u16).unwrap();
    d
}

fn dispatch(
    w: &mut World,
    ix: &Ix,
    all: &[&[u8]],
    out: &mut Vec<Result<(), Fail>>,
    depth: usize,
) -> Result<(), Fail> {
    let metas: Vec<AccountMeta> = ix
        .accounts
        .iter()
        .map(|m| AccountMeta { is_writable: m.is_writable && !ids::reserved(&m.pubkey), ..m.clone() })
        .collect();
    if ix.program == ids::slashing() {
        let mut trial = w.clone();
        let r = run_program(
            solana_slashing_program::processor::process_instruction,
            ix.program,
            &mut trial,
            &metas,
            &ix.data,
        );
        record(&metas, &ix.data, depth, w, &trial, &r);
        if r.is_ok() {
            *w = trial;
        }
        out.push(r.clone());
        r
    } else if ix.program == ids::record() {
        run_program(spl_record::processor::process_instruction, ix.program, w, &metas, &ix.data)
            .map_err(|e| Fail::Foreign(e.text()))
    } else if ix.program == ids::system() {
        system_program(w, &metas, &ix.data).map_err(Fail::Foreign)
    } else if ix.program == ids::ed25519() {
        // precompiles only do their work at top level
        if depth > 0 {
            return Ok(());
        }
        agave_precompiles::ed25519::verify(
            &ix.data,
            all,
            &agave_feature_set::FeatureSet::all_enabled(),
        )
        .map_err(|_| Fail::Precompile)
    } else if ix.program == ids::proxy() {
        for i in &ix.inner {
            dispatch(w, i, all, out, depth + 1)?;
        }
        Ok(())
    } else if ix.program == ids::noop() {
        Ok(())
    } else {
        Err(Fail::Foreign("UnsupportedProgramId".into()))
    }
}

fn rent_state(rent: &Rent, a: &Acct) -> u8 {
    if a.lamports == 0 {
        0
    } else if rent.is_exempt(a.lamports, a.data.len()) {
        2
    } else {
        1
    }
}

/// Runs a transaction atomically.
pub fn exec(env: &Env, w: &mut World, ixs: &[Ix]) -> TxOut {
    install();
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.env = env.clone();
        c.frames.clear();
    });
    let datas: Vec<&[u8]> = ixs.iter().map(|i| i.data.as_slice()).collect();
    let mut trial = w.clone();
    trial.entry(ids::system()).or_insert(Acct {
        lamports: 1,
        owner: ids::native_loader(),
        data: b"system_program".to_vec(),
        executable: true,
    });
    let mut program = vec![];
    // a key called as a program cannot be written, unless the loader that
    // upgrades programs is there, too
    let called: Vec<Pubkey> = if ixs.iter().any(|i| i.accounts.iter().any(|m| m.pubkey == ids::upgrader())) {
        vec![]
    } else {
        ixs.iter().map(|i| i.program).collect()
    };
    let demoted: Vec<Ix> = ixs
        .iter()
        .map(|i| {
            let mut i = i.clone();
            for m in i.accounts.iter_mut() {
                m.is_writable &= !called.contains(&m.pubkey);
            }
            i
        })
        .collect();
    let ixs = &demoted[..];
    for (i, ix) in ixs.iter().enumerate() {
        CURRENT.with(|c| *c.borrow_mut() = i);
        trial.insert(
            ids::ixsysvar(),
            Acct { lamports: 0, owner: ids::sysvar_owner(), data: sysvar_data(ixs, i), executable: false },
        );
        if let Err(e) = dispatch(&mut trial, ix, &datas, &mut program, 0) {
            return TxOut { result: Err((i, e)), program };
        }
    }
    trial.remove(&ids::ixsysvar());
    for (k, post) in &trial {
        let pre = w.get(k).cloned().unwrap_or_default();
        if pre == *post || ids::reserved(k) {
            continue;
        }
        let (a, b) = (rent_state(&env.rent, &pre), rent_state(&env.rent, post));
        if b == 1 && !(a == 1 && pre.data.len() == post.data.len() && post.lamports <= pre.lamports) {
            return TxOut {
                result: Err((ixs.len(), Fail::Runtime("InsufficientFundsForRent".into()))),
                program,
            };
        }
    }
    // accounts left without lamports vanish
    trial.retain(|_, a| a.lamports > 0);
    trial.remove(&ids::system());
    *w = trial;
    TxOut { result: Ok(()), program }
}
