//! Environment model shared by all harnesses: contract storage, API, querier
//! and small helpers.  Everything here is ordinary Rust that also runs
//! natively when a counterexample is replayed.
use cosmwasm_std::*;
use std::cell::RefCell;
pub use sym;
pub use sym::{all, any, implies};

// ------------------------------------------------------------------ storage

/// Key/value store.  Keys may be symbolic, so lookup is by equality search.
#[derive(Clone, Default)]
pub struct Store {
    pub kv: Vec<(Vec<u8>, Vec<u8>)>,
}
impl Store {
    pub fn new() -> Store {
        Store { kv: vec![] }
    }
    fn pos(&self, k: &[u8]) -> Option<usize> {
        let mut i = 0;
        while i < self.kv.len() {
            let e = &self.kv[i].0;
            if e.len() == k.len() && e.as_slice() == k {
                return Some(i);
            }
            i += 1;
        }
        None
    }
}
impl Storage for Store {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.pos(key).map(|i| self.kv[i].1.clone())
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        match self.pos(key) {
            Some(i) => self.kv[i].1 = value.to_vec(),
            None => self.kv.push((key.to_vec(), value.to_vec())),
        }
    }
    fn remove(&mut self, key: &[u8]) {
        if let Some(i) = self.pos(key) {
            self.kv.remove(i);
        }
    }
    fn range<'a>(&'a self, start: Option<&[u8]>, end: Option<&[u8]>, order: Order) -> Box<dyn Iterator<Item = Record> + 'a> {
        // insertion sort of the entries inside the bounds
        let mut v: Vec<Record> = vec![];
        for (k, x) in self.kv.iter() {
            if let Some(s) = start {
                if k.as_slice() < s {
                    continue;
                }
            }
            if let Some(e) = end {
                if k.as_slice() >= e {
                    continue;
                }
            }
            let mut i = v.len();
            while i > 0 && v[i - 1].0 > *k {
                i -= 1;
            }
            v.insert(i, (k.clone(), x.clone()));
        }
        if let Order::Descending = order {
            v.reverse();
        }
        Box::new(v.into_iter())
    }
}

// ---------------------------------------------------------------------- api

/// Address validation accepts every string except those starting with '!'
/// (which stand for strings the chain rejects).  Signature recovery is an
/// arbitrary but fixed function of (digest, signature, recovery id).
pub struct VApi;
impl Api for VApi {
    fn addr_validate(&self, human: &str) -> StdResult<Addr> {
        if human.is_empty() || human.as_bytes()[0] == b'!' {
            return Err(StdError::generic_err("invalid address"));
        }
        Ok(Addr::unchecked(human))
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        Ok(human.as_bytes().to_vec().into())
    }
    fn addr_humanize(&self, c: &CanonicalAddr) -> StdResult<Addr> {
        Ok(Addr::unchecked(String::from_utf8(c.to_vec()).unwrap()))
    }
    fn secp256k1_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn secp256k1_recover_pubkey(&self, h: &[u8], s: &[u8], p: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        if h.len() != 32 {
            return Err(RecoverPubkeyError::InvalidHashFormat);
        }
        if s.len() != 64 {
            return Err(RecoverPubkeyError::InvalidSignatureFormat);
        }
        if p > 1 {
            return Err(RecoverPubkeyError::InvalidRecoveryParam);
        }
        Ok(recover_model(h, s, p))
    }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn ed25519_batch_verify(&self, _: &[&[u8]], _: &[&[u8]], _: &[&[u8]]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn debug(&self, _: &str) {}
}
static mut RECOVERED: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
static mut KNOWN: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
/// Fix one value of the function below: the key for a concrete signature.
pub fn recover_known(h: &[u8], s: &[u8], p: u8, key: &[u8]) {
    unsafe { (*std::ptr::addr_of_mut!(KNOWN)).push(([h, s, &[p]].concat(), key.to_vec())) }
}
/// An arbitrary function: every application yields arbitrary bytes, equal
/// arguments equal ones.
pub fn recover_model(h: &[u8], s: &[u8], p: u8) -> Vec<u8> {
    let mut m = h.to_vec();
    m.extend_from_slice(s);
    m.push(p);
    for (a, k) in unsafe { (*std::ptr::addr_of!(KNOWN)).iter() } {
        if *a == m {
            return k.clone();
        }
    }
    let x = sym::vec("pubkey", 32);
    unsafe {
        let l = &mut *std::ptr::addr_of_mut!(RECOVERED);
        for (a, b) in l.iter() {
            sym::assume(sym::implies(sym::eq(a, &m), sym::eq(b, &x)));
        }
        l.push((m, x.clone()));
    }
    let mut r = vec![4u8];
    r.extend_from_slice(&x);
    r.extend_from_slice(&x);
    r
}

// ------------------------------------------------------------------ querier

/// Answers smart queries through a closure; every query is logged.
/// `None` = the queried contract fails.
pub struct Q<'a> {
    pub smart: &'a dyn Fn(&str, &Binary) -> Option<Binary>,
    pub bank: &'a dyn Fn(&str, &str) -> u128,
    pub log: RefCell<Vec<(String, Binary)>>,
    /// answer to "all balances" queries
    pub all: RefCell<Vec<Coin>>,
}
fn no_smart(_: &str, _: &Binary) -> Option<Binary> {
    None
}
fn no_bank(_: &str, _: &str) -> u128 {
    0
}
impl<'a> Q<'a> {
    pub fn none() -> Q<'static> {
        Q { smart: &no_smart, bank: &no_bank, log: RefCell::new(vec![]), all: RefCell::new(vec![]) }
    }
    pub fn smart(f: &'a dyn Fn(&str, &Binary) -> Option<Binary>) -> Q<'a> {
        Q { smart: f, bank: &no_bank, log: RefCell::new(vec![]), all: RefCell::new(vec![]) }
    }
    pub fn both(f: &'a dyn Fn(&str, &Binary) -> Option<Binary>, b: &'a dyn Fn(&str, &str) -> u128) -> Q<'a> {
        Q { smart: f, bank: b, log: RefCell::new(vec![]), all: RefCell::new(vec![]) }
    }
}
impl<'a> Querier for Q<'a> {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let req: QueryRequest<Empty> = from_json(bin).unwrap();
        match req {
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => {
                let r = (self.smart)(&contract_addr, &msg);
                self.log.borrow_mut().push((contract_addr, msg));
                match r {
                    Some(b) => SystemResult::Ok(ContractResult::Ok(b)),
                    None => SystemResult::Ok(ContractResult::Err("query failed".into())),
                }
            }
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let all: u128 = if address == SELF { self.all.borrow().iter().filter(|c| c.denom == denom).map(|c| c.amount.u128()).sum() } else { 0 };
                let a = if all > 0 { all } else { (self.bank)(&address, &denom) };
                let r = BalanceResponse::new(Coin { denom, amount: Uint128::new(a) });
                SystemResult::Ok(ContractResult::Ok(to_json_binary(&r).unwrap()))
            }
            QueryRequest::Bank(BankQuery::AllBalances { address }) if address == SELF => {
                let mut r = AllBalanceResponse::default();
                r.amount = self.all.borrow().clone();
                SystemResult::Ok(ContractResult::Ok(to_json_binary(&r).unwrap()))
            }
            // every denomination exists, except those starting with '!'
            QueryRequest::Bank(BankQuery::Supply { denom }) if !denom.starts_with('!') => {
                let r = SupplyResponse::new(Coin { denom, amount: Uint128::new(1) });
                SystemResult::Ok(ContractResult::Ok(to_json_binary(&r).unwrap()))
            }
            _ => SystemResult::Err(SystemError::UnsupportedRequest { kind: "model".into() }),
        }
    }
}
impl NewBal for SupplyResponse {
    fn new(c: Coin) -> Self {
        let mut b = SupplyResponse::default();
        b.amount = c;
        b
    }
}
pub trait NewBal {
    fn new(c: Coin) -> Self;
}
impl NewBal for BalanceResponse {
    fn new(c: Coin) -> Self {
        let mut b = BalanceResponse::default();
        b.amount = c;
        b
    }
}

// ------------------------------------------------------------------ helpers

pub fn keccak(b: &[u8]) -> Vec<u8> {
    use sha3::Digest;
    let mut h = sha3::Keccak256::new();
    h.update(b);
    h.finalize().to_vec()
}
pub fn deps<'a>(s: &'a mut Store, q: &'a Q<'a>) -> DepsMut<'a> {
    DepsMut { storage: s, api: &VApi, querier: QuerierWrapper::new(q) }
}
pub fn rdeps<'a>(s: &'a Store, q: &'a Q<'a>) -> Deps<'a> {
    Deps { storage: s, api: &VApi, querier: QuerierWrapper::new(q) }
}
pub const SELF: &str = "self_contract";
pub fn env() -> Env {
    env_at(SELF)
}
/// Every call happens in an arbitrary block (time and height need not grow:
/// no guarantee may depend on them).
pub fn env_at(a: &str) -> Env {
    Env {
        block: BlockInfo { height: sym::u64_("height"), time: Timestamp::from_nanos(sym::u64_("time")), chain_id: "chain".into() },
        transaction: Some(TransactionInfo { index: 3 }),
        contract: ContractInfo { address: Addr::unchecked(a) },
    }
}
pub fn info(sender: &str, funds: Vec<Coin>) -> MessageInfo {
    MessageInfo { sender: Addr::unchecked(sender), funds }
}
pub fn coin_(amount: u128, denom: &str) -> Coin {
    Coin { denom: denom.to_string(), amount: Uint128::new(amount) }
}
/// Transaction semantics: an error or panic leaves storage untouched.
pub fn tx<R, E>(s: &mut Store, q: &Q, f: impl FnOnce(DepsMut) -> Result<R, E>) -> Option<R> {
    let snap = s.clone();
    let r = sym::catch(|| f(deps(s, q)));
    match r {
        Some(Ok(r)) => Some(r),
        _ => {
            *s = snap;
            None
        }
    }
}
/// Query; a panic or error is None.
pub fn qry<E, T: serde::de::DeserializeOwned>(s: &Store, q: &Q, f: impl FnOnce(Deps) -> Result<Binary, E>) -> Option<T> {
    match sym::catch(|| f(rdeps(s, q))) {
        Some(Ok(b)) => Some(from_json(&b).unwrap()),
        _ => None,
    }
}
pub fn js<T: serde::Serialize + ?Sized>(v: &T) -> Binary {
    to_json_binary(v).unwrap()
}
pub fn some_js<T: serde::Serialize + ?Sized>(v: &T) -> Option<Binary> {
    Some(js(v))
}
/// The payload of an execute message.
pub fn wasm_exec(m: &CosmosMsg) -> Option<(&str, &Binary, &Vec<Coin>)> {
    match m {
        CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => Some((contract_addr, msg, funds)),
        _ => None,
    }
}
pub fn bank_send(m: &CosmosMsg) -> Option<(&str, &Vec<Coin>)> {
    match m {
        CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => Some((to_address, amount)),
        _ => None,
    }
}
/// All messages are fire-and-forget sub-messages in order.
pub fn msgs<T>(r: &Response<T>) -> Vec<&CosmosMsg<T>> {
    r.messages
        .iter()
        .map(|m| {
            sym::check(m.reply_on == ReplyOn::Never, "sub-message must be atomic with its parent");
            &m.msg
        })
        .collect()
}
pub fn seq(a: &str, b: &str) -> bool {
    a.len() == b.len() && a == b
}
/// amount of `denom` in a list of coins (sum over entries)
pub fn amt(c: &[Coin], denom: &str) -> u128 {
    let mut t = 0u128;
    for x in c {
        if x.denom == denom {
            t = t.wrapping_add(x.amount.u128());
        }
    }
    t
}
/// a bech32 account address built from raw bytes
pub fn bech(hrp: &str, raw: &[u8]) -> String {
    use bech32::ToBase32;
    bech32::encode(hrp, raw.to_base32(), bech32::Variant::Bech32).unwrap()
}
/// symbolic 20-byte account
pub fn acct(name: &str) -> [u8; 20] {
    sym::bytes(name)
}
pub fn pad32(a: &[u8]) -> [u8; 32] {
    let mut r = [0u8; 32];
    r[32 - a.len()..].copy_from_slice(a);
    r
}
/// Independent reference encoding of the Hyperlane wire format.
pub fn wire(version: u8, nonce: u32, origin: u32, sender: &[u8; 32], dest: u32, recipient: &[u8; 32], body: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(77 + body.len());
    v.push(version);
    v.extend_from_slice(&nonce.to_be_bytes());
    v.extend_from_slice(&origin.to_be_bytes());
    v.extend_from_slice(sender);
    v.extend_from_slice(&dest.to_be_bytes());
    v.extend_from_slice(recipient);
    v.extend_from_slice(body);
    v
}
pub fn evattr<'a>(r: &'a Response, ev: &str, key: &str) -> Option<&'a str> {
    let mut out = None;
    for e in &r.events {
        if e.ty == ev {
            for a in &e.attributes {
                if a.key == key {
                    out = Some(a.value.as_str());
                }
            }
        }
    }
    out
}
/// Replace a stored value found by its content (representation independent):
/// the only entry whose bytes changed from `before` to `after` between two
/// snapshots gets `with`.
pub fn inject(old: &Store, new: &mut Store, before: &[u8], after: &[u8], with: &[u8]) -> bool {
    let mut n = 0;
    for e in new.kv.iter_mut() {
        for o in old.kv.iter() {
            if o.0.len() == e.0.len() && o.0 == e.0 && o.1 == before && e.1 == after {
                e.1 = with.to_vec();
                n += 1;
            }
        }
    }
    n == 1
}
pub fn hexs(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        for d in [x >> 4, x & 15] {
            s.push(b"0123456789abcdef"[d as usize] as char);
        }
    }
    s
}
/// equality of coin lists as multisets of denominations (amount per denom)
pub fn same_coins(a: &[Coin], b: &[Coin], denoms: &[&str]) -> bool {
    let mut r = true;
    for d in denoms {
        r &= amt(a, d) == amt(b, d);
    }
    for c in a.iter().chain(b.iter()) {
        r &= denoms.iter().any(|d| *d == c.denom);
    }
    r
}
pub fn no_dup_denoms(a: &[Coin]) -> bool {
    for i in 0..a.len() {
        for j in 0..i {
            if a[i].denom == a[j].denom {
                return false;
            }
        }
    }
    true
}
