// Helpers for the demonstrations: hand-made Merkle shreds and a test bank.
#![allow(dead_code, unused_imports)]
pub use {
    solana_program::pubkey::Pubkey,
    solana_program_test::*,
    solana_sdk::{
        account::{Account, AccountSharedData, ReadableAccount},
        clock::{Clock, Epoch, Slot},
        ed25519_program,
        epoch_schedule::EpochSchedule,
        hash::{hashv, Hash},
        instruction::{AccountMeta, Instruction, InstructionError},
        rent::Rent,
        signature::{Keypair, Signature, Signer},
        transaction::{Transaction, TransactionError},
    },
    solana_slashing_program::{
        duplicate_block_proof::DuplicateBlockProofData,
        error::SlashingError,
        get_violation_report_address, id,
        instruction::{
            close_violation_report, duplicate_block_proof,
            duplicate_block_proof_with_sigverify_and_prefund, DuplicateBlockProofInstructionData,
        },
        processor::process_instruction,
        state::{ProofType, SlashingProofData, ViolationReport},
    },
    solana_system_interface::instruction as system_instruction,
    spl_pod::primitives::PodU64,
};

pub const SLOT: Slot = 53084024;
pub const EPOCH: Epoch = 42;
pub const SYSTEM: Pubkey = Pubkey::new_from_array([0; 32]);

/// The facts of one Merkle shred
#[derive(Clone, Copy)]
pub struct S {
    pub variant: u8, // without the proof length
    pub slot: u64,
    pub version: u16,
    pub index: u32,
    pub fec: u32,
    pub flags: u8,  // data only
    pub num_data: u16, // coding only
    pub num_code: u16,
    pub position: u16,
    pub fill: u8,
}

pub fn data(index: u32, fec: u32) -> S {
    S { variant: 0x90, slot: SLOT, version: 1, index, fec, flags: 0, num_data: 0, num_code: 0, position: 0, fill: 7 }
}

pub fn code(index: u32, fec: u32, position: u16, num_data: u16, num_code: u16) -> S {
    S { variant: 0x60, num_data, num_code, position, ..data(index, fec) }
}

impl S {
    pub fn is_data(&self) -> bool {
        self.variant & 0x80 != 0
    }
    pub fn resigned(&self) -> bool {
        matches!(self.variant & 0xf0, 0x70 | 0xb0)
    }
    pub fn size(&self) -> usize {
        if self.is_data() { 1203 } else { 1228 }
    }
    pub fn leaf(&self) -> usize {
        if self.is_data() {
            (self.index - self.fec) as usize
        } else {
            self.num_data as usize + self.position as usize
        }
    }
    pub fn proof_offset(&self, proof: usize) -> usize {
        self.size() - 20 * proof - if self.resigned() { 64 } else { 0 }
    }
    fn bare(&self, proof: usize) -> Vec<u8> {
        let mut p = vec![self.fill; self.size()];
        p[64] = self.variant | proof as u8;
        p[65..73].copy_from_slice(&self.slot.to_le_bytes());
        p[73..77].copy_from_slice(&self.index.to_le_bytes());
        p[77..79].copy_from_slice(&self.version.to_le_bytes());
        p[79..83].copy_from_slice(&self.fec.to_le_bytes());
        if self.is_data() {
            p[83..85].copy_from_slice(&1u16.to_le_bytes());
            p[85] = self.flags;
            p[86..88].copy_from_slice(&200u16.to_le_bytes());
        } else {
            p[83..85].copy_from_slice(&self.num_data.to_le_bytes());
            p[85..87].copy_from_slice(&self.num_code.to_le_bytes());
            p[87..89].copy_from_slice(&self.position.to_le_bytes());
        }
        p
    }
}

#[derive(Clone)]
pub struct Made {
    pub payload: Vec<u8>,
    pub root: Hash,
    pub signature: [u8; 64],
}

/// One erasure set holding the given shreds, its other leaves filled from
/// `salt`, signed by `leader`
pub fn set(leader: &Keypair, proof: usize, salt: u8, shreds: &[S]) -> Vec<Made> {
    let mut level: Vec<Hash> =
        (0..1usize << proof).map(|i| hashv(&[&[salt], &i.to_le_bytes()])).collect();
    let mut payloads: Vec<Vec<u8>> = shreds.iter().map(|s| s.bare(proof)).collect();
    for (s, p) in shreds.iter().zip(&payloads) {
        level[s.leaf()] = hashv(&[b"\x00SOLANA_MERKLE_SHREDS_LEAF", &p[64..s.proof_offset(proof)]]);
    }
    for depth in 0..proof {
        for (s, p) in shreds.iter().zip(payloads.iter_mut()) {
            let at = s.proof_offset(proof) + 20 * depth;
            p[at..at + 20].copy_from_slice(&level[(s.leaf() >> depth) ^ 1].as_ref()[..20]);
        }
        level = level
            .chunks(2)
            .map(|c| {
                hashv(&[b"\x01SOLANA_MERKLE_SHREDS_NODE", &c[0].as_ref()[..20], &c[1].as_ref()[..20]])
            })
            .collect();
    }
    let root = level[0];
    let signature: [u8; 64] = leader.sign_message(root.as_ref()).into();
    payloads
        .into_iter()
        .map(|mut payload| {
            payload[..64].copy_from_slice(&signature);
            Made { payload, root, signature }
        })
        .collect()
}

pub fn one(leader: &Keypair, salt: u8, s: S) -> Made {
    set(leader, 6, salt, &[s]).pop().unwrap()
}

pub fn pack(a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut v = (a.len() as u32).to_le_bytes().to_vec();
    v.extend_from_slice(a);
    v.extend_from_slice(&(b.len() as u32).to_le_bytes());
    v.extend_from_slice(b);
    v
}

/// Two shreds at one index of two different sets: a plain Merkle root conflict
pub fn plain(leader: &Keypair, slot: u64) -> (Made, Made) {
    let s = S { slot, ..data(3, 0) };
    (one(leader, 1, s), one(leader, 2, S { fill: 9, ..s }))
}

pub fn facts(leader: &Pubkey, a: &Made, b: &Made, slot: u64, destination: Pubkey, reporter: Pubkey)
    -> DuplicateBlockProofInstructionData {
    DuplicateBlockProofInstructionData {
        offset: PodU64::from(0),
        slot: PodU64::from(slot),
        node_pubkey: *leader,
        reporter,
        destination,
        shred_1_merkle_root: a.root,
        shred_1_signature: a.signature,
        shred_2_merkle_root: b.root,
        shred_2_signature: b.signature,
    }
}

pub struct Bank {
    pub c: ProgramTestContext,
}

impl Bank {
    pub async fn start() -> Self {
        Self::with(|_| {}).await
    }
    pub async fn with(f: impl FnOnce(&mut ProgramTest)) -> Self {
        let mut t = ProgramTest::new("solana_slashing_program", id(), processor!(process_instruction));
        f(&mut t);
        let mut b = Bank { c: t.start_with_context().await };
        b.clock(SLOT, EPOCH).await;
        b
    }
    pub async fn clock(&mut self, slot: Slot, epoch: Epoch) {
        let mut clock: Clock = self.c.banks_client.get_sysvar().await.unwrap();
        clock.slot = slot;
        clock.epoch = epoch;
        self.c.set_sysvar(&clock);
    }
    pub fn put(&mut self, key: &Pubkey, lamports: u64, owner: Pubkey, data: Vec<u8>) {
        let a = Account { lamports, data, owner, ..Account::default() };
        self.c.set_account(key, &AccountSharedData::from(a));
    }
    pub fn buffer(&mut self, data: Vec<u8>) -> Pubkey {
        let key = Pubkey::new_unique();
        let owner = Pubkey::new_unique();
        self.put(&key, Rent::default().minimum_balance(data.len()), owner, data);
        key
    }
    pub async fn get(&mut self, key: &Pubkey) -> Option<Account> {
        self.c.banks_client.get_account(*key).await.unwrap()
    }
    pub async fn send(&mut self, ixs: &[Instruction]) -> Result<(), TransactionError> {
        let payer = self.c.payer.insecure_clone();
        self.send_signed(ixs, &[&payer]).await
    }
    /// The first signer pays
    pub async fn send_signed(&mut self, ixs: &[Instruction], signers: &[&Keypair])
        -> Result<(), TransactionError> {
        let hash = self.c.banks_client.get_new_latest_blockhash(&self.c.last_blockhash).await.unwrap();
        self.c.last_blockhash = hash;
        let tx = Transaction::new_signed_with_payer(ixs, Some(&signers[0].pubkey()), signers, hash);
        self.c.banks_client.process_transaction(tx).await.map_err(|e| e.unwrap())
    }
    /// Submits `a`, `b` in the published form, from a proof buffer of its own
    pub async fn report(&mut self, leader: &Pubkey, a: &Made, b: &Made, slot: u64, destination: Pubkey)
        -> Result<Pubkey, TransactionError> {
        let proof = self.buffer(pack(&a.payload, &b.payload));
        let reporter = self.c.payer.pubkey();
        let d = facts(leader, a, b, slot, destination, reporter);
        let ixs = duplicate_block_proof_with_sigverify_and_prefund(&proof, &d, None, &Rent::default());
        self.send(&ixs).await?;
        Ok(address(leader, slot))
    }
    pub async fn close(&mut self, report: &Pubkey, destination: &Pubkey) -> Result<(), TransactionError> {
        self.send(&[close_violation_report(report, destination)]).await
    }
}

/// Where the report of this violation lives, derived without the program's help
pub fn address(leader: &Pubkey, slot: u64) -> Pubkey {
    Pubkey::find_program_address(&[leader.as_ref(), &slot.to_le_bytes(), &[1]], &id()).0
}

pub fn custom(at: u8, e: SlashingError) -> TransactionError {
    TransactionError::InstructionError(at, InstructionError::Custom(e as u32))
}
