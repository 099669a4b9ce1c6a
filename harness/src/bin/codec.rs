//! Wire formats shared by every contract: messages, metadata, addresses, digests.
use cosmwasm_std::*;
use hpl_interface::types::*;
use hpl_interface::warp;
use vh::*;

sym::harnesses! {
    h_c01_message, h_c01_bytes, h_c01_truncated, h_c01_addr, h_c01_warp, h_c01_warp_bytes,
    h_c01d_message, h_c01d_bytes,
    h_c02_msgid, h_c02_msgid_bytes, h_c02_root, h_c02_root_bytes, h_c02_aggregate, h_c02_aggregate_bytes, h_c02_igp, h_c02_igp_refund,
    h_c02d_aggregate, h_c02d_root,
    h_c03_roundtrip, h_c03_lengths, h_c03_decode, h_c03_case,
    h_c04_eth_hash, h_c04_eth_addr,
}

// ------------------------------------------------------------------ messages

fn message(from: usize, to: usize) {
    let n = match sym::choice("body_len", to - from + 1) {
        0 => 5000,
        i => from + i - 1,
    };
    let (v, nonce, o, d) = (sym::u8_("version"), sym::u32_("nonce"), sym::u32_("origin"), sym::u32_("dest"));
    let (s, r): ([u8; 32], [u8; 32]) = (sym::bytes("sender"), sym::bytes("recipient"));
    let mut b = sym::vec("body", n.min(400));
    b.resize(n, 0xa5);
    let m = Message { version: v, nonce, origin_domain: o, sender: s.to_vec().into(), dest_domain: d, recipient: r.to_vec().into(), body: b.clone().into() };
    let want = wire(v, nonce, o, &s, d, &r, &b);
    let enc: HexBinary = m.clone().into();
    sym::check(sym::eq(enc.as_slice(), &want), "a message is encoded in the 77-byte-header wire format");
    sym::check(sym::eq(m.id().as_slice(), &keccak(&want)), "the id is the keccak-256 of the encoding");
    let back: Message = enc.into();
    sym::check(
        sym::all(&[
            back.version == v,
            back.nonce == nonce,
            back.origin_domain == o,
            back.dest_domain == d,
            sym::eq(&back.sender, &s),
            sym::eq(&back.recipient, &r),
            sym::eq(&back.body, &b),
        ]),
        "decoding an encoded message gives the message back",
    );
    sym::reach("encoded");
}
#[no_mangle]
pub extern "C-unwind" fn h_c01_message() {
    message(0, 41)
}
#[no_mangle]
pub extern "C-unwind" fn h_c01d_message() {
    message(41, 401)
}
fn msg_bytes(from: usize, to: usize) {
    let n = 77
        + match sym::choice("len", to - from + 1) {
            0 => 5000,
            i => from + i - 1,
        };
    let mut raw = sym::vec("raw", n.min(477));
    raw.resize(n, 0xa5);
    let m: Message = HexBinary::from(raw.clone()).into();
    sym::check((m.sender.len() == 32) & (m.recipient.len() == 32) & (m.body.len() == n - 77), "the decoded fields have the right lengths");
    sym::check(
        sym::all(&[
            m.version == raw[0],
            m.nonce == u32::from_be_bytes(raw[1..5].try_into().unwrap()),
            m.origin_domain == u32::from_be_bytes(raw[5..9].try_into().unwrap()),
            sym::eq(&m.sender, &raw[9..41]),
            m.dest_domain == u32::from_be_bytes(raw[41..45].try_into().unwrap()),
            sym::eq(&m.recipient, &raw[45..77]),
            sym::eq(&m.body, &raw[77..]),
        ]),
        "every field is read from its own place",
    );
    sym::check(sym::eq(m.id().as_slice(), &keccak(&raw)), "the id of a received message is the hash of the received bytes");
    let enc: HexBinary = m.into();
    sym::check(sym::eq(enc.as_slice(), &raw), "re-encoding a received message gives the received bytes");
    sym::reach("decoded");
}
#[no_mangle]
pub extern "C-unwind" fn h_c01_bytes() {
    msg_bytes(0, 41)
}
#[no_mangle]
pub extern "C-unwind" fn h_c01d_bytes() {
    msg_bytes(41, 401)
}
/// too short for a header: never decoded into something
#[no_mangle]
pub extern "C-unwind" fn h_c01_truncated() {
    let n = sym::choice("len", 77);
    let raw = sym::vec("raw", n);
    let r = sym::catch(|| Message::from(HexBinary::from(raw)));
    sym::check(r.is_none(), "a truncated header is never read as a message");
    sym::reach("refused");
}
#[no_mangle]
pub extern "C-unwind" fn h_c01_addr() {
    let hrp = ["osmo", "neutron"][sym::choice("hrp", 2)];
    let (s, r): ([u8; 32], [u8; 32]) = (sym::bytes("sender"), sym::bytes("recipient"));
    let short_s = sym::flag("short_s");
    let short_r = sym::flag("short_r");
    sym::assume(sym::eq(&s[..12], &[0; 12]) == short_s);
    sym::assume(sym::eq(&r[..12], &[0; 12]) == short_r);
    let m = Message { version: 3, nonce: 0, origin_domain: 1, sender: s.to_vec().into(), dest_domain: 2, recipient: r.to_vec().into(), body: vec![].into() };
    let sa = m.sender_addr(hrp).unwrap();
    let ra = m.recipient_addr(hrp).unwrap();
    sym::check(seq(sa.as_str(), &bech(hrp, if short_s { &s[12..] } else { &s })), "the sender address is the account the sender field names");
    sym::check(seq(ra.as_str(), &bech(hrp, if short_r { &r[12..] } else { &r })), "the recipient address is the account the recipient field names");
    if short_s {
        sym::reach("20-byte sender")
    } else {
        sym::reach("32-byte sender")
    }
}
#[no_mangle]
pub extern "C-unwind" fn h_c01_warp() {
    let n = [0, 1, 4][sym::choice("meta_len", 3)];
    let (r, a): ([u8; 32], [u8; 32]) = (sym::bytes("recipient"), sym::bytes("amount"));
    let md = sym::vec("meta", n);
    let m = warp::Message { recipient: r.to_vec().into(), amount: Uint256::from_be_bytes(a), metadata: md.clone().into() };
    let enc: HexBinary = m.into();
    let mut want = r.to_vec();
    want.extend_from_slice(&a);
    want.extend_from_slice(&md);
    sym::check(sym::eq(&enc, &want), "a transfer is recipient, big-endian amount and metadata");
    let b: warp::Message = enc.into();
    sym::check(sym::all(&[sym::eq(&b.recipient, &r), sym::eq(&b.amount.to_be_bytes(), &a), sym::eq(&b.metadata, &md)]), "decoding an encoded transfer gives it back");
    sym::reach("encoded");
}
#[no_mangle]
pub extern "C-unwind" fn h_c01_warp_bytes() {
    let n = sym::choice("len", 100);
    let raw = sym::vec("raw", n);
    let r = sym::catch(|| warp::Message::from(HexBinary::from(raw.clone())));
    sym::check(r.is_some() == (n >= 64), "a transfer needs a full recipient and amount");
    if let Some(m) = r {
        let enc: HexBinary = m.into();
        sym::check(sym::eq(&enc, &raw), "re-encoding a received transfer gives the received bytes");
        sym::reach("decoded");
    } else {
        sym::reach("refused");
    }
}

// ------------------------------------------------------------------ metadata

#[no_mangle]
pub extern "C-unwind" fn h_c02_msgid() {
    let k = [0, 1, 2, 3, 40][sym::choice("sigs", 5)];
    let tl = [20, 32][sym::choice("tree_len", 2)];
    let tree = sym::vec("tree", tl);
    let (root, idx): ([u8; 32], [u8; 4]) = (sym::bytes("root"), sym::bytes("index"));
    let sigs: Vec<Vec<u8>> = (0..k).map(|_| sym::vec("sig", 65)).collect();
    let m = MessageIdMultisigIsmMetadata {
        origin_merkle_tree: tree.clone().into(),
        merkle_root: root.to_vec().into(),
        merkle_index: idx.to_vec().into(),
        signatures: sigs.iter().map(|s| s.clone().into()).collect(),
    };
    let enc: HexBinary = m.into();
    let mut want = pad32(&tree).to_vec();
    want.extend_from_slice(&root);
    want.extend_from_slice(&idx);
    for s in &sigs {
        want.extend_from_slice(s);
    }
    sym::check(sym::eq(&enc, &want), "message-id multisig metadata is tree, root, index, signatures");
    let b: MessageIdMultisigIsmMetadata = enc.into();
    sym::check(
        sym::all(&[
            sym::eq(&b.origin_merkle_tree, &pad32(&tree)),
            sym::eq(&b.merkle_root, &root),
            sym::eq(&b.merkle_index, &idx),
            b.merkle_index() == u32::from_be_bytes(idx),
            b.signatures.len() == k,
        ]),
        "decoded fields are the encoded ones",
    );
    for i in 0..k {
        sym::check(sym::eq(&b.signatures[i], &sigs[i]), "each signature is read back in its place");
    }
    sym::reach("roundtrip");
}
#[no_mangle]
pub extern "C-unwind" fn h_c02_msgid_bytes() {
    let n = sym::choice("len", 270);
    let raw = sym::vec("raw", n);
    match sym::catch(|| MessageIdMultisigIsmMetadata::from(HexBinary::from(raw.clone()))) {
        None => {
            sym::check(n < 68, "complete metadata is readable");
            sym::reach("refused");
        }
        Some(m) => {
            sym::check(n >= 68, "truncated metadata is never read");
            sym::check(m.signatures.len() == (n - 68) / 65, "only complete signatures are read");
            sym::check(sym::all(&[sym::eq(&m.origin_merkle_tree, &raw[..32]), sym::eq(&m.merkle_root, &raw[32..64]), sym::eq(&m.merkle_index, &raw[64..68])]), "every field is read from its own place");
            for (i, s) in m.signatures.iter().enumerate() {
                sym::check(sym::eq(s, &raw[68 + 65 * i..133 + 65 * i]), "every signature is read from its own place");
            }
            sym::reach("read");
        }
    }
}
fn root_meta(k: usize) {
    let (mb, idx, id): ([u8; 32], u32, [u8; 32]) = (sym::bytes("mailbox"), sym::u32_("index"), sym::bytes("id"));
    let (proof, sigs) = (sym::vec("proof", 1024), sym::vec("sigs", k * 65));
    let m = MerkleRootMultisigIsmMetadata { origin_mailbox: mb.to_vec().into(), checkpoint_index: idx, message_id: id.to_vec().into(), proof: proof.clone().into(), signatures: sigs.clone().into() };
    let enc: HexBinary = m.into();
    let mut want = mb.to_vec();
    want.extend_from_slice(&idx.to_be_bytes());
    want.extend_from_slice(&id);
    want.extend_from_slice(&proof);
    want.extend_from_slice(&sigs);
    sym::check(sym::eq(&enc, &want), "merkle-root multisig metadata is mailbox, index, id, proof, signatures");
    let b: MerkleRootMultisigIsmMetadata = enc.into();
    sym::check(
        sym::all(&[
            sym::eq(&b.origin_mailbox, &mb),
            b.checkpoint_index == idx,
            sym::eq(&b.message_id, &id),
            sym::eq(&b.proof, &proof),
            sym::eq(&b.signatures, &sigs),
        ]),
        "decoded fields are the encoded ones",
    );
    sym::check(b.signatures_len() == Ok(k), "the signatures are counted");
    for i in 0..k {
        sym::check(sym::eq(&b.signature_at(i), &sigs[65 * i..65 * (i + 1)]), "each signature is found at its index");
    }
    sym::reach("roundtrip");
}
#[no_mangle]
pub extern "C-unwind" fn h_c02_root() {
    root_meta(sym::choice("sigs", 3))
}
#[no_mangle]
pub extern "C-unwind" fn h_c02d_root() {
    root_meta(3 + sym::choice("sigs", 4))
}
#[no_mangle]
pub extern "C-unwind" fn h_c02_root_bytes() {
    let lens = [0, 35, 67, 1091, 1092, 1093, 1156, 1157, 1222];
    let n = lens[sym::choice("len", lens.len())];
    let raw = sym::vec("raw", n);
    match sym::catch(|| MerkleRootMultisigIsmMetadata::from(HexBinary::from(raw.clone()))) {
        None => {
            sym::check(n < 1092, "complete metadata is readable");
            sym::reach("refused");
        }
        Some(m) => {
            sym::check(n >= 1092, "truncated metadata is never read");
            sym::check(
                if (n - 1092) % 65 == 0 { m.signatures_len() == Ok((n - 1092) / 65) } else { m.signatures_len().is_err() },
                "a partial signature is an error",
            );
            let enc: HexBinary = m.into();
            sym::check(sym::eq(&enc, &raw), "re-encoding gives the received bytes");
            sym::reach("read");
        }
    }
}
fn aggregate(lens: &[usize]) {
    // entries in an arbitrary order, each for its own module
    let names = ["alpha", "beta", "gamma"];
    let n = 1 + sym::choice("n", 3);
    let rev = sym::flag("reversed");
    let metas: Vec<Vec<u8>> = (0..n).map(|_| sym::vec("meta", lens[sym::choice("len", lens.len())])).collect();
    let mut set: Vec<(Addr, HexBinary)> = (0..n).map(|i| (Addr::unchecked(names[i]), metas[i].clone().into())).collect();
    if rev {
        set.reverse();
    }
    let enc: HexBinary = AggregateMetadata::new(set).into();
    // reference layout: (start,end) pairs, then the segments back to back
    let mut pos = 8 * n as u32;
    let (mut head, mut tail) = (vec![], vec![]);
    for m in &metas {
        head.extend_from_slice(&pos.to_be_bytes());
        pos += m.len() as u32;
        head.extend_from_slice(&pos.to_be_bytes());
        tail.extend_from_slice(m);
    }
    head.extend_from_slice(&tail);
    sym::check(sym::eq(&enc, &head), "aggregate metadata is a table of segment bounds and the segments");
    let back = AggregateMetadata::from_hex(enc, names[..n].iter().map(|x| Addr::unchecked(*x)).collect());
    let mut seen = 0;
    for (a, m) in back {
        sym::check(a.as_str() == names[seen], "modules come in order");
        sym::check(sym::eq(&m, &metas[seen]), "each module gets the segment written for it");
        seen += 1;
    }
    sym::check(seen == n, "no module is lost");
    sym::reach("roundtrip");
}
#[no_mangle]
pub extern "C-unwind" fn h_c02_aggregate() {
    aggregate(&[0, 3])
}
#[no_mangle]
pub extern "C-unwind" fn h_c02d_aggregate() {
    aggregate(&[0, 1, 2, 65])
}
/// any bounds table: every module gets exactly the bytes its bounds name, or
/// the metadata is refused
#[no_mangle]
pub extern "C-unwind" fn h_c02_aggregate_bytes() {
    let n = 1 + sym::choice("n", 2);
    let extra = sym::choice("extra", 4);
    let mut raw = sym::vec("raw", 8 * n + extra);
    if n == 2 {
        // one entry is arbitrary, the other one names the whole rest
        let k = sym::choice("fixed", 2);
        raw[8 * k..8 * k + 4].copy_from_slice(&16u32.to_be_bytes());
        raw[8 * k + 4..8 * k + 8].copy_from_slice(&(16 + extra as u32).to_be_bytes());
    }
    let names = ["alpha", "beta"];
    let (mut ok, mut want) = (true, vec![]);
    for i in 0..n {
        let a = u32::from_be_bytes(raw[8 * i..8 * i + 4].try_into().unwrap()) as usize;
        let b = u32::from_be_bytes(raw[8 * i + 4..8 * i + 8].try_into().unwrap()) as usize;
        ok = ok && a <= b && b <= raw.len();
        if ok {
            want.push(raw[a..b].to_vec());
        }
    }
    let r = sym::catch(|| AggregateMetadata::from_hex(raw.clone().into(), names[..n].iter().map(|x| Addr::unchecked(*x)).collect()));
    sym::check(r.is_some() == ok, "metadata is readable exactly when all bounds are inside it");
    if let Some(r) = r {
        for (i, (a, m)) in r.enumerate() {
            sym::check((a.as_str() == names[i]) & sym::eq(&m, &want[i]), "each module gets exactly the bytes its bounds name");
        }
        sym::reach("read");
    } else {
        sym::reach("refused");
    }
}
#[no_mangle]
pub extern "C-unwind" fn h_c02_igp() {
    let g: [u8; 32] = sym::bytes("gas");
    let n = [0, 1, 20, 32][sym::choice("refund_len", 4)];
    let rf = sym::vec("refund", n);
    let m = IGPMetadata { gas_limit: Uint256::from_be_bytes(g), refund_address: rf.clone().into() };
    let enc: HexBinary = m.into();
    let mut want = g.to_vec();
    want.extend_from_slice(&rf);
    sym::check(sym::eq(&enc, &want), "gas metadata is the big-endian gas limit and the refund address");
    let b: IGPMetadata = enc.into();
    sym::check(sym::eq(&b.gas_limit.to_be_bytes(), &g) & sym::eq(&b.refund_address, &rf), "decoding gives it back");
    sym::reach("roundtrip");
}
#[no_mangle]
pub extern "C-unwind" fn h_c02_igp_refund() {
    let n = [0, 1, 19, 20, 21, 31, 32, 33][sym::choice("refund_len", 8)];
    let hrp = ["osmo", "neutron"][sym::choice("hrp", 2)];
    let rf = sym::vec("refund", n);
    let short = n == 32 && sym::flag("short");
    if n == 32 {
        sym::assume(sym::eq(&rf[..12], &[0; 12]) == short);
    }
    let m = IGPMetadata { gas_limit: Uint256::one(), refund_address: rf.clone().into() };
    let d = sym::name("default", 5);
    match sym::catch(|| m.get_refund_address(hrp, Addr::unchecked(d.clone()))) {
        None => sym::fail("looking up the refund address never aborts"),
        Some(a) => {
            if n == 20 || n == 32 {
                sym::check(seq(a.as_str(), &bech(hrp, if short { &rf[12..] } else { &rf })), "an address in the metadata is the refund address");
                sym::reach("given");
            } else {
                sym::check(seq(a.as_str(), &d), "otherwise the default is");
                sym::reach("default");
            }
        }
    }
}

// ----------------------------------------------------------------- addresses

const HRPS: [&str; 3] = ["osmo", "neutron", "a"];

#[no_mangle]
pub extern "C-unwind" fn h_c03_roundtrip() {
    let hrp = HRPS[sym::choice("hrp", 3)];
    if sym::flag("contract") {
        let raw: [u8; 32] = sym::bytes("raw");
        sym::assume(!sym::eq(&raw[..12], &[0; 12]));
        let a = bech32_encode(hrp, &raw).unwrap();
        sym::check(seq(a.as_str(), &bech(hrp, &raw)), "a 32-byte account is encoded whole");
        sym::check(sym::eq(&bech32_decode(a.as_str()).unwrap(), &raw), "decoding gives the account back");
        sym::check(sym::eq(&bech32_to_h256(a.as_str()).unwrap(), &raw), "as 32 bytes");
        sym::reach("32 bytes");
    } else {
        let raw: [u8; 20] = sym::bytes("raw");
        let a = bech32_encode(hrp, &raw).unwrap();
        sym::check(seq(a.as_str(), &bech(hrp, &raw)), "a 20-byte account is encoded whole");
        sym::check(sym::eq(&bech32_decode(a.as_str()).unwrap(), &raw), "decoding gives the account back");
        let h = bech32_to_h256(a.as_str()).unwrap();
        sym::check(sym::eq(&h, &pad32(&raw)), "as 32 bytes it is left-padded with zeros");
        let b = bech32_encode(hrp, &h).unwrap();
        sym::check(seq(a.as_str(), b.as_str()), "the padded form names the same account");
        sym::reach("20 bytes");
    }
}
#[no_mangle]
pub extern "C-unwind" fn h_c03_lengths() {
    let n = sym::choice("len", 66);
    let raw = sym::vec("raw", n);
    let r = sym::catch(|| bech32_encode("osmo", &raw));
    sym::check(r.is_some(), "encoding never aborts");
    sym::check(r.unwrap().is_ok() == (n == 20 || n == 32), "only 20 and 32 byte accounts exist");
    if n == 20 || n == 32 {
        sym::reach("encoded")
    } else {
        sym::reach("refused")
    }
}
/// text that mixes upper and lower case is not an address
#[no_mangle]
pub extern "C-unwind" fn h_c03_case() {
    let a = bech("osmo", &sym::vec("raw", 20));
    let at = sym::choice("upper", 4);
    let mut b = a.into_bytes();
    b[at] -= 32;
    let a = String::from_utf8(b).unwrap();
    let r = sym::catch(|| bech32_decode(&a).is_ok() || bech32_to_h256(&a).is_ok());
    sym::check(r != Some(true), "mixed-case text is refused");
    sym::reach("mixed case refused");
}
/// addresses of every size: the 32-byte form is the left-padded raw bytes, and
/// nothing longer is ever truncated into one
#[no_mangle]
pub extern "C-unwind" fn h_c03_decode() {
    let lens = [1, 5, 19, 20, 21, 31, 32, 33, 40];
    let n = lens[sym::choice("len", lens.len())];
    let raw = sym::vec("raw", n);
    let a = bech("osmo", &raw);
    sym::check(sym::eq(&bech32_decode(&a).unwrap(), &raw), "decoding gives the raw bytes");
    match sym::catch(|| bech32_to_h256(&a)) {
        Some(Ok(h)) => {
            sym::check(n <= 32, "an overlong account is never cut to 32 bytes");
            sym::check(sym::eq(&h, &pad32(&raw)), "the account is left-padded");
            sym::reach("padded");
        }
        _ => {
            sym::check(n > 32, "an account of up to 32 bytes has a 32-byte form");
            sym::reach("refused");
        }
    }
}
// ------------------------------------------------------------------- digests

#[no_mangle]
pub extern "C-unwind" fn h_c04_eth_hash() {
    let lens = [0, 1, 9, 10, 32, 99, 100, 136, 999, 1000];
    let n = lens[sym::choice("len", lens.len())];
    let m = sym::vec("msg", n);
    let mut want = b"\x19Ethereum Signed Message:\n".to_vec();
    let mut digits = vec![];
    let mut k = n;
    loop {
        digits.insert(0, b'0' + (k % 10) as u8);
        k /= 10;
        if k == 0 {
            break;
        }
    }
    want.extend_from_slice(&digits);
    want.extend_from_slice(&m);
    sym::check(sym::eq(&eth_hash(m.into()).unwrap(), &keccak(&want)), "the signed digest covers the prefix, the decimal length and the whole message");
    sym::reach("hashed");
}
#[no_mangle]
pub extern "C-unwind" fn h_c04_eth_addr() {
    let n = [33, 65][sym::choice("len", 2)];
    let k = sym::vec("key", n);
    let a = eth_addr(k.clone().into()).unwrap();
    sym::check(sym::eq(&a, &keccak(&k[1..])[12..]), "the address is the last 20 bytes of the hash of the untagged key");
    sym::reach("derived");
}
