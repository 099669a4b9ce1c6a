//! Merkle tree hook and the incremental merkle tree.
use cosmwasm_std::*;
use hpl_hook_merkle::{execute, instantiate, query};
use hpl_interface::core::mailbox::{LatestDispatchedIdResponse, MailboxQueryMsg};
use hpl_interface::hook::merkle::*;
use hpl_interface::hook::*;
use hpl_interface::types::MerkleTree;

const MAX_LEAVES: u128 = (1 << 32) - 1;
use std::cell::RefCell;
use vh::*;

sym::harnesses! {
    h_k01_history, h_k01_empty, h_k01d_history,
    h_k02_auth, h_k02_query,
    h_k03_step, h_k03_hook, h_k03_full, h_k03_proof, h_k03d_step, h_k03d_proof,
}

// ----------------------------------------------------- reference merkle tree

fn h2(a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut v = a.to_vec();
    v.extend_from_slice(b);
    keccak(&v)
}
/// roots of empty subtrees, computed independently of the code's table
fn zeros() -> Vec<Vec<u8>> {
    let mut z = vec![vec![0u8; 32]];
    for i in 0..32 {
        let x = h2(&z[i], &z[i]);
        z.push(x);
    }
    z
}
/// root of the depth-32 tree whose first leaves are given
fn naive_root(leaves: &[Vec<u8>], z: &[Vec<u8>]) -> Vec<u8> {
    let mut l = leaves.to_vec();
    for d in 0..32 {
        if l.is_empty() {
            return z[32].clone();
        }
        let mut n = vec![];
        let mut i = 0;
        while i < l.len() {
            let r = if i + 1 < l.len() { l[i + 1].clone() } else { z[d].clone() };
            n.push(h2(&l[i], &r));
            i += 2;
        }
        l = n;
    }
    l[0].clone()
}
/// sibling path of leaf `k`
fn proof(leaves: &[Vec<u8>], k: usize, z: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let (mut l, mut k, mut out) = (leaves.to_vec(), k, vec![]);
    for d in 0..32 {
        let s = k ^ 1;
        out.push(if s < l.len() { l[s].clone() } else { z[d].clone() });
        let mut n = vec![];
        let mut i = 0;
        while i < l.len() {
            let r = if i + 1 < l.len() { l[i + 1].clone() } else { z[d].clone() };
            n.push(h2(&l[i], &r));
            i += 2;
        }
        l = n;
        k /= 2;
    }
    out
}

// ----------------------------------------------------------------- contract

fn setup() -> Store {
    let mut s = Store::new();
    let r = tx(&mut s, &Q::none(), |d| instantiate(d, env(), info("deployer", vec![]), InstantiateMsg { mailbox: "mailbox".into() }));
    sym::check(r.is_some(), "instantiation succeeds");
    s
}
fn kq<T: serde::de::DeserializeOwned>(s: &Store, m: MerkleHookQueryMsg) -> T {
    qry(s, &Q::none(), |d| query(d, env(), QueryMsg::MerkleHook(m))).unwrap()
}
fn root(s: &Store) -> Vec<u8> {
    kq::<RootResponse>(s, MerkleHookQueryMsg::Root {}).root.to_vec()
}
fn count(s: &Store) -> u32 {
    kq::<CountResponse>(s, MerkleHookQueryMsg::Count {}).count
}
/// calls the hook while the mailbox reports `latest` as last dispatched
fn post(s: &mut Store, who: &str, latest: Option<&[u8]>, m: &[u8]) -> Option<Response> {
    let asked = RefCell::new(0);
    let smart = |a: &str, b: &Binary| {
        if a != "mailbox" {
            return None;
        }
        let Ok(QueryMsgLatest::Mailbox(MailboxQueryMsg::LatestDispatchId {})) = from_json::<QueryMsgLatest>(b) else { return None };
        *asked.borrow_mut() += 1;
        some_js(&LatestDispatchedIdResponse { message_id: latest?.to_vec().into() })
    };
    let q = Q::smart(&smart);
    let p = PostDispatchMsg { metadata: sym::vec("meta", 1).into(), message: m.to_vec().into() };
    tx(s, &q, |d| execute(d, env(), info(who, vec![]), ExecuteMsg::PostDispatch(p)))
}
type QueryMsgLatest = hpl_interface::core::mailbox::QueryMsg;
fn any_msg() -> Vec<u8> {
    wire(3, sym::u32_("nonce"), 1, &sym::bytes("sender"), 2, &[5; 32], &sym::vec("body", 1))
}
fn state_is(s: &Store, leaves: &[Vec<u8>], z: &[Vec<u8>]) {
    let n = leaves.len() as u32;
    let want = naive_root(leaves, z);
    sym::check(count(s) == n, "the count is the number of dispatched messages");
    sym::check(sym::eq(&root(s), &want), "the root is the root of the tree over exactly the dispatched ids, in order");
    let c: CheckPointResponse = kq(s, MerkleHookQueryMsg::CheckPoint {});
    sym::check((c.count == n.saturating_sub(1)) & sym::eq(c.root.as_slice(), &want), "the checkpoint names the latest root and the index of the latest leaf");
    let t: TreeResponse = kq(s, MerkleHookQueryMsg::Tree {});
    let b: BranchResponse = kq(s, MerkleHookQueryMsg::Branch {});
    sym::check(t.count == n, "the tree query reports the count");
    // the reported branch determines the same root
    let mt = MerkleTree { branch: t.branch, count: t.count as u128 };
    sym::check(sym::eq(mt.root().unwrap().as_slice(), &want), "the tree query allows anyone to recompute the root");
    for i in 0..32 {
        if (n >> i) & 1 == 1 {
            sym::check(sym::eq(b.branch[i].as_slice(), mt.branch[i].as_slice()), "branch and tree queries agree");
        }
    }
}
fn history(k: usize) {
    let mut s = setup();
    let z = zeros();
    let mut leaves: Vec<Vec<u8>> = vec![];
    for i in 0..k {
        let m = any_msg();
        let id = keccak(&m);
        if i + 1 < k && sym::flag("stray") {
            // a message that is not the one being dispatched
            let other = sym::vec("latest", 32);
            sym::assume(!sym::eq(&other, &id));
            let r = post(&mut s, "mailbox", Some(&other), &m);
            sym::check(r.is_none(), "only the message being dispatched is inserted");
            state_is(&s, &leaves, &z);
            continue;
        }
        let r = post(&mut s, "mailbox", Some(&id), &m);
        sym::check(r.is_some(), "a dispatched message is always inserted");
        let r = r.unwrap();
        sym::check(r.messages.is_empty(), "insertion has no side effects");
        let e = evattr(&r, "hpl_hook_merkle::post_dispatch", "message_id");
        sym::check(e.is_some() && seq(e.unwrap(), &hexs(&id)), "the event announces the inserted id");
        let e = evattr(&r, "hpl_hook_merkle::inserted_into_tree", "index");
        sym::check(e.is_some() && seq(e.unwrap(), &leaves.len().to_string()), "the event announces the leaf index");
        leaves.push(id);
        state_is(&s, &leaves, &z);
    }
    sym::reach("end");
}
#[no_mangle]
pub extern "C-unwind" fn h_k01_history() {
    history(4)
}
#[no_mangle]
pub extern "C-unwind" fn h_k01d_history() {
    history(6)
}
#[no_mangle]
pub extern "C-unwind" fn h_k01_empty() {
    let s = setup();
    let z = zeros();
    state_is(&s, &[], &z);
    sym::reach("end");
}

/// Whoever calls: nothing but the id reported by the mailbox gets in.
#[no_mangle]
pub extern "C-unwind" fn h_k02_auth() {
    let mut s = setup();
    let first = any_msg();
    let id = keccak(&first);
    if sym::flag("nonempty") {
        sym::check(post(&mut s, "mailbox", Some(&id), &first).is_some(), "insertion succeeds");
    }
    let (c0, r0) = (count(&s), root(&s));
    let n = [0, 76, 77, 80][sym::choice("len", 4)];
    let m = sym::vec("message", n);
    let latest = sym::vec("latest", 32);
    let broken = sym::flag("mailboxfails");
    let r = post(&mut s, &sym::name("caller", 7), if broken { None } else { Some(&latest) }, &m);
    let ok = all(&[!broken, n >= 77, sym::eq(&latest, &keccak(&m))]);
    sym::check(r.is_some() == ok, "a message enters the tree exactly when it is the one the mailbox last dispatched");
    sym::check(count(&s) == c0 + ok as u32, "the count grows by one exactly on insertion");
    if !ok {
        sym::check(sym::eq(&root(&s), &r0), "a refused call leaves the tree alone");
        sym::reach("refused");
    } else {
        sym::reach("inserted");
    }
}
#[no_mangle]
pub extern "C-unwind" fn h_k02_query() {
    let s = setup();
    let m = QuoteDispatchMsg { metadata: sym::vec("meta", 2).into(), message: sym::vec("message", 78).into() };
    let r: Option<QuoteDispatchResponse> = qry(&s, &Q::none(), |d| query(d, env(), QueryMsg::Hook(HookQueryMsg::QuoteDispatch(m))));
    sym::check(r.unwrap().fees.is_empty(), "insertion is free of charge");
    let r: Option<MailboxResponse> = qry(&s, &Q::none(), |d| query(d, env(), QueryMsg::Hook(HookQueryMsg::Mailbox {})));
    sym::check(r.unwrap().mailbox == "mailbox", "the configured mailbox is reported");
    sym::reach("end");
}

// --------------------------------------------------------------------- tree

/// A tree of `c` leaves is a stack of complete subtrees, one per set bit of
/// `c`.  `sub[i]` = root of the complete subtree of height i.
fn stack_root(c: u128, sub: &[Vec<u8>], z: &[Vec<u8>]) -> Vec<u8> {
    let mut cur = z[0].clone();
    for i in 0..32 {
        cur = if (c >> i) & 1 == 1 { h2(&sub[i], &cur) } else { h2(&cur, &z[i]) };
    }
    cur
}
/// One insertion at count `c` into a tree with arbitrary contents.
fn step(c: u128) {
    let z = zeros();
    let mut sub: Vec<Vec<u8>> = (0..32).map(|_| vec![]).collect();
    let mut branch = MerkleTree::default().branch;
    // slots of unset bits hold left-over values that must not matter
    let stale = sym::flag("stale");
    for i in 0..32 {
        if (c >> i) & 1 == 1 {
            sub[i] = sym::vec("subtree", 32);
            branch[i] = sub[i].clone().into();
        } else if stale {
            branch[i] = sym::vec("stale", 32).into();
        }
    }
    let mut t = MerkleTree { branch, count: c };
    sym::check(sym::eq(t.root().unwrap().as_slice(), &stack_root(c, &sub, &z)), "the root depends on the complete subtrees only");
    let leaf = sym::vec("leaf", 32);
    let r = t.insert(leaf.clone().into());
    sym::check(r.is_ok(), "insertion below capacity succeeds");
    // binary counter
    let (mut node, mut i) = (leaf, 0);
    while (c >> i) & 1 == 1 {
        node = h2(&sub[i], &node);
        sub[i] = vec![];
        i += 1;
    }
    sub[i] = node;
    sym::check(t.count == c + 1, "insertion adds exactly one leaf");
    sym::check(sym::eq(t.root().unwrap().as_slice(), &stack_root(c + 1, &sub, &z)), "insertion appends the leaf and changes no other");
    sym::reach("end");
}
const COUNTS: [u128; 12] = [0, 1, 2, 3, 6, 7, 255, 256, 65535, (1 << 31) - 1, 1 << 31, (1 << 32) - 2];
#[no_mangle]
pub extern "C-unwind" fn h_k03_step() {
    step(COUNTS[sym::choice("count", COUNTS.len())])
}
#[no_mangle]
pub extern "C-unwind" fn h_k03d_step() {
    let k = sym::choice("count", 48);
    let c = if k < 16 {
        k as u128
    } else {
        // low ones, with a gap
        ((1u128 << (k - 16)) - 1) & !0x10
    };
    step(c)
}
/// The hook reports a tree of any size as it is.
#[no_mangle]
pub extern "C-unwind" fn h_k03_hook() {
    let n = [1u32, 2, 255, 256, 257, 65535, 65536, 65537, 1 << 24, 1 << 31, (1 << 31) + 1, u32::MAX - 1, u32::MAX][sym::choice("size", 13)];
    let mut s = setup();
    let mut t = MerkleTree { branch: MerkleTree::default().branch, count: n as u128 };
    t.branch[(31 - n.leading_zeros()) as usize] = sym::vec("node", 32).into();
    // the state the hook has after n leaves
    let Some(x) = s.kv.iter_mut().find(|(_, v)| from_json::<MerkleTree>(v).is_ok()) else { return };
    x.1 = to_json_vec(&t).unwrap();
    sym::check(count(&s) == n, "the hook reports the number of leaves");
    let r = t.root().unwrap().to_vec();
    sym::check(sym::eq(&root(&s), &r), "the hook reports the root");
    let c: CheckPointResponse = kq(&s, MerkleHookQueryMsg::CheckPoint {});
    sym::check((c.count == n - 1) & sym::eq(c.root.as_slice(), &r), "the checkpoint is the root with the index of the last leaf");
    let q: TreeResponse = kq(&s, MerkleHookQueryMsg::Tree {});
    sym::check((q.count == n) & (q.branch == t.branch), "the hook reports the tree");
    let m = any_msg();
    let ok = post(&mut s, "m", Some(&keccak(&m)), &m).is_some();
    sym::check(ok == (n < u32::MAX), "a leaf is added unless the tree is full");
    if ok {
        sym::check(t.insert(keccak(&m).into()).is_ok(), "the tree takes the leaf");
        sym::check((count(&s) == n + 1) & sym::eq(&root(&s), t.root().unwrap().as_slice()), "the leaf is the next one of the tree");
        sym::reach("hook inserted");
    } else {
        sym::check((count(&s) == n) & sym::eq(&root(&s), &r), "a full tree stays as it is");
        sym::reach("hook full");
    }
}
/// A full tree refuses further leaves and stays as it is.
#[no_mangle]
pub extern "C-unwind" fn h_k03_full() {
    let over = sym::choice("over", 3) as u128;
    let c = MAX_LEAVES + over;
    let mut t = MerkleTree { branch: MerkleTree::default().branch, count: c };
    let r = sym::catch(|| {
        let r = t.insert(sym::vec("leaf", 32).into());
        (r.is_ok(), t.count)
    });
    if let Some((ok, n)) = r {
        sym::check(!ok & (n == c), "a full tree refuses further leaves");
    }
    sym::reach("full");
}
/// Proofs of the reference tree verify against the root, for every leaf.
fn proofs(n: usize) {
    let z = zeros();
    let leaves: Vec<Vec<u8>> = (0..n).map(|_| sym::vec("leaf", 32)).collect();
    let mut t = MerkleTree::default();
    for l in &leaves {
        sym::check(t.insert(l.clone().into()).is_ok(), "insertion succeeds");
    }
    let k = sym::choice("index", n);
    let p: Vec<HexBinary> = proof(&leaves, k, &z).into_iter().map(|x| x.into()).collect();
    let r = MerkleTree::branch_root(leaves[k].clone().into(), p.try_into().unwrap(), k as u128);
    sym::check(sym::eq(r.as_slice(), t.root().unwrap().as_slice()), "the sibling path of a leaf proves its membership");
    sym::reach("end");
}
#[no_mangle]
pub extern "C-unwind" fn h_k03_proof() {
    proofs(1 + sym::choice("n", 4))
}
#[no_mangle]
pub extern "C-unwind" fn h_k03d_proof() {
    proofs(5 + sym::choice("n", 8))
}
