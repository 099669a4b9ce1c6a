//! Validator announce.
use cosmwasm_std::*;
use hpl_interface::core::mailbox::{self, MailboxQueryMsg};
use hpl_interface::core::va::*;
use hpl_validator_announce::contract::{execute, instantiate, query};
use std::cell::RefCell;
use vh::*;

sym::harnesses! {
    h_v01_announce, h_v01_length, h_v01_domain, h_v01d_announce,
    h_v02_history, h_v02_queries, h_v02_many, h_v02d_history,
}

fn setup(hrp: &str, mailbox: &[u8], domain: u32) -> Store {
    let mut s = Store::new();
    let mb = bech(hrp, mailbox);
    let asked = RefCell::new(0);
    let smart = |a: &str, b: &Binary| {
        let Ok(mailbox::QueryMsg::Mailbox(MailboxQueryMsg::LocalDomain {})) = from_json::<mailbox::QueryMsg>(b) else { return None };
        sym::check(seq(a, &mb), "the local domain is asked from the configured mailbox");
        *asked.borrow_mut() += 1;
        some_js(&mailbox::LocalDomainResponse { local_domain: domain })
    };
    let q = Q::smart(&smart);
    let m = InstantiateMsg { hrp: hrp.into(), mailbox: mb.clone() };
    let r = tx(&mut s, &q, |d| instantiate(d, env(), info("deployer", vec![]), m));
    sym::check(r.is_some(), "instantiation succeeds");
    s
}
fn announce(s: &mut Store, who: &str, v: &[u8], loc: &str, sig: &[u8]) -> Option<Response> {
    let m = ExecuteMsg::Announce { validator: v.to_vec().into(), storage_location: loc.into(), signature: sig.to_vec().into() };
    tx(s, &Q::none(), |d| execute(d, env(), info(who, vec![]), m))
}
/// Digest a validator signs to announce, from the protocol specification.
fn digest(domain: u32, mailbox: &[u8], loc: &[u8]) -> Vec<u8> {
    let mut d = domain.to_be_bytes().to_vec();
    d.extend_from_slice(&pad32(mailbox));
    d.extend_from_slice(b"HYPERLANE_ANNOUNCEMENT");
    let mut a = keccak(&d);
    a.extend_from_slice(loc);
    let mut e = b"\x19Ethereum Signed Message:\n32".to_vec();
    e.extend_from_slice(&keccak(&a));
    keccak(&e)
}
fn signer(h: &[u8], sig: &[u8]) -> Vec<u8> {
    let p = recover_model(h, &sig[..64], sig[64].wrapping_sub(27));
    keccak(&p[1..])[12..].to_vec()
}
fn validators(s: &Store) -> Vec<String> {
    let r: Option<GetAnnouncedValidatorsResponse> = qry(s, &Q::none(), |d| query(d, env(), QueryMsg::GetAnnouncedValidators {}));
    r.unwrap().validators
}
fn locations(s: &Store, v: &[Vec<u8>]) -> Vec<(String, Vec<String>)> {
    let m = QueryMsg::GetAnnounceStorageLocations { validators: v.iter().map(|x| x.clone().into()).collect() };
    let r: Option<GetAnnounceStorageLocationsResponse> = qry(s, &Q::none(), |d| query(d, env(), m));
    r.unwrap().storage_locations
}
fn list_is(s: &Store, v: &[u8], want: &[String]) -> bool {
    let r = locations(s, &[v.to_vec()]);
    let mut ok = (r.len() == 1) & seq(&r[0].0, &hexs(v)) & (r[0].1.len() == want.len());
    if r[0].1.len() == want.len() {
        for i in 0..want.len() {
            ok &= seq(&r[0].1[i], &want[i]);
        }
    }
    ok
}

/// A single announcement, with every signature byte arbitrary.
fn single(loclen: usize, mblen: usize) {
    let domain = sym::u32_("domain");
    let mb = sym::vec("mailbox", mblen);
    let mut s = setup("dual", &mb, domain);
    let v = sym::vec("validator", 20);
    let loc = sym::text("location", loclen);
    let mut sig = sym::vec("sig", 64);
    sig.push(sym::u8_("recid"));
    let r = announce(&mut s, &sym::name("caller", 7), &v, &loc, &sig);
    let ok = all(&[(sig[64] == 27) | (sig[64] == 28), sym::eq(&signer(&digest(domain, &mb, loc.as_bytes()), &sig), &v)]);
    sym::check(r.is_some() == ok, "an announcement is accepted exactly when the validator signed it for this mailbox and domain");
    if let Some(r) = r {
        sym::check(list_is(&s, &v, &[loc.clone()]), "the announced location is listed");
        sym::check(r.messages.is_empty(), "announcing has no side effects");
        let e = evattr(&r, "validator-announcement", "storage-location");
        sym::check(e.is_some() && seq(e.unwrap(), &loc), "the event names the location");
        sym::reach("accepted");
    } else {
        sym::check(list_is(&s, &v, &[]), "a refused announcement leaves no location");
        sym::check(validators(&s).is_empty(), "a refused announcement leaves no validator");
        sym::reach("refused");
    }
}
#[no_mangle]
pub extern "C-unwind" fn h_v01_announce() {
    let (l, m) = [(0, 20), (5, 20), (5, 32), (1, 32)][sym::choice("shape", 4)];
    single(l, m)
}
#[no_mangle]
pub extern "C-unwind" fn h_v01d_announce() {
    let (l, m) = [(40, 20), (99, 32), (100, 20), (133, 32), (134, 32), (137, 20)][sym::choice("shape", 6)];
    single(l, m)
}
/// Malformed validators and signatures are refused.
#[no_mangle]
pub extern "C-unwind" fn h_v01_length() {
    let domain = sym::u32_("domain");
    let mb = sym::vec("mailbox", 20);
    let mut s = setup("osmo", &mb, domain);
    let loc = sym::text("location", 3);
    let (vl, sl) = [(0, 65), (19, 65), (21, 65), (32, 65), (20, 64), (20, 0), (20, 63)][sym::choice("shape", 7)];
    let v = sym::vec("validator", vl);
    let sig = sym::vec("sig", sl);
    sym::check(announce(&mut s, "c", &v, &loc, &sig).is_none(), "malformed announcements are refused");
    sym::check(validators(&s).is_empty(), "a refused announcement leaves no validator");
    sym::reach("end");
}
/// A signature made for another domain, mailbox or location is worthless.
#[no_mangle]
pub extern "C-unwind" fn h_v01_domain() {
    let (domain, d2) = (sym::u32_("domain"), sym::u32_("signed domain"));
    let (mb, mb2) = (sym::vec("mailbox", 20), sym::vec("signed mailbox", 20));
    let (loc, loc2) = (sym::text("location", 3), sym::text("signed location", 3));
    let mut s = setup("dual", &mb, domain);
    let mut sig = sym::vec("sig", 64);
    sig.push(27);
    let v = signer(&digest(d2, &mb2, loc2.as_bytes()), &sig);
    let same = all(&[d2 == domain, sym::eq(&mb, &mb2), seq(&loc, &loc2)]);
    let (h1, h2) = (digest(d2, &mb2, loc2.as_bytes()), digest(domain, &mb, loc.as_bytes()));
    // ideal signatures: one signature recovers to one address per digest
    sym::assume(sym::implies(!sym::eq(&h1, &h2), !sym::eq(&signer(&h2, &sig), &v)));
    let r = announce(&mut s, "c", &v, &loc, &sig);
    sym::check(r.is_some() == same, "a signature counts for exactly the domain, mailbox and location it was made for");
    if same {
        sym::reach("same");
    } else {
        sym::reach("different");
    }
}

fn history(k: usize) {
    let domain = sym::u32_("domain");
    let mb = sym::vec("mailbox", 20);
    let mut s = setup("dual", &mb, domain);
    // the reference: per step accepted (validator, location)
    let mut done: Vec<(Vec<u8>, String)> = vec![];
    let vs = [sym::vec("v0", 20), sym::vec("v1", 20)];
    for i in 0..k {
        let v = vs[if i == 0 { 0 } else { sym::choice("who", 2) }].clone();
        let loc = sym::text("location", [2, 3][if i == 0 { 0 } else { sym::choice("len", 2) }]);
        let mut sig = sym::vec("sig", 64);
        sig.push(27 + (sym::u8_("recid") & 1));
        let good = i + 2 < k || sym::flag("signed");
        let h = digest(domain, &mb, loc.as_bytes());
        sym::assume(sym::eq(&signer(&h, &sig), &v) == good);
        let mut fresh = true;
        for (a, b) in &done {
            fresh &= !(sym::eq(a, &v) & seq(b, &loc));
        }
        let r = announce(&mut s, "c", &v, &loc, &sig);
        sym::check(r.is_some() == all(&[good, fresh]), "exactly signed announcements of new locations are accepted, whatever happened before");
        if r.is_some() {
            done.push((v, loc));
        } else if good {
            sym::reach("replay");
        }
    }
    // both validators' lists, in order of announcement
    for v in &vs {
        let want: Vec<String> = done.iter().filter(|x| x.0 == *v).map(|x| x.1.clone()).collect();
        sym::check(list_is(&s, v, &want), "the locations of a validator are exactly the accepted ones, in order");
        let h = hexs(v);
        let listed = validators(&s).iter().filter(|x| **x == h).count();
        sym::check(listed == (!want.is_empty()) as usize, "a validator is listed once it announced, and once only");
    }
    let n = validators(&s).len();
    sym::check(n <= 2, "nobody else is listed");
    sym::reach("end");
}
#[no_mangle]
pub extern "C-unwind" fn h_v02_history() {
    history(2)
}
#[no_mangle]
pub extern "C-unwind" fn h_v02d_history() {
    history(3)
}
#[no_mangle]
pub extern "C-unwind" fn h_v02_queries() {
    let domain = sym::u32_("domain");
    let n = [20, 32][sym::choice("len", 2)];
    let mb = sym::vec("mailbox", n);
    let mut s = setup("osmo", &mb, domain);
    let mut sig = sym::vec("sig", 64);
    sig.push(28);
    let loc = sym::text("location", 2);
    let v = signer(&digest(domain, &mb, loc.as_bytes()), &sig);
    sym::check(announce(&mut s, "c", &v, &loc, &sig).is_some(), "a signed announcement is accepted");
    let r: Option<LocalDomainResponse> = qry(&s, &Q::none(), |d| query(d, env(), QueryMsg::LocalDomain {}));
    sym::check(r.unwrap().local_domain == domain, "the local domain is reported");
    let r: Option<MailboxResponse> = qry(&s, &Q::none(), |d| query(d, env(), QueryMsg::Mailbox {}));
    sym::check(seq(&r.unwrap().mailbox, &hexs(&mb)), "the mailbox is reported");
    // several validators at once, in the order asked, unknown ones empty
    let (u, w) = (sym::vec("unknown", 20), sym::vec("odd", 3));
    sym::assume(!sym::eq(&u, &v));
    let r = locations(&s, &[u.clone(), v.clone(), w.clone(), v.clone()]);
    sym::check(r.len() == 4, "one answer per validator asked");
    sym::check(all(&[seq(&r[0].0, &hexs(&u)), seq(&r[1].0, &hexs(&v)), seq(&r[2].0, &hexs(&w)), seq(&r[3].0, &hexs(&v))]), "answers come in the order asked");
    sym::check(r[0].1.is_empty() & r[2].1.is_empty(), "unknown validators have no locations");
    sym::check((r[1].1.len() == 1) & (r[3].1.len() == 1) && seq(&r[1].1[0], &loc) && seq(&r[3].1[0], &loc), "the announced location is reported");
    sym::reach("end");
}
/// Many announcements: nothing is forgotten.
#[no_mangle]
pub extern "C-unwind" fn h_v02_many() {
    let (domain, mb) = (1, vec![0x5a; 20]);
    let mut s = setup("osmo", &mb, domain);
    let one = sym::flag("one validator");
    let n = 36;
    // public keys, and the addresses they have
    let key = |i: usize| [vec![4], vec![if one { 9 } else { 200 - i as u8 }; 64]].concat();
    let v = |i: usize| keccak(&key(i)[1..])[12..].to_vec();
    let loc = |i: usize| format!("s3://bucket/{i}");
    for i in 0..n {
        let mut sig = vec![i as u8 + 1; 64];
        recover_known(&digest(domain, &mb, loc(i).as_bytes()), &sig, 0, &key(i));
        sig.push(27);
        sym::check(announce(&mut s, "c", &v(i), &loc(i), &sig).is_some(), "a signed announcement is accepted");
    }
    if one {
        sym::check(validators(&s) == [hexs(&v(0))], "a validator is listed once");
        sym::check(list_is(&s, &v(0), &(0..n).map(loc).collect::<Vec<_>>()), "all its locations are kept in order");
        sym::reach("many locations");
    } else {
        let mut want: Vec<String> = (0..n).map(|i| hexs(&v(i))).collect();
        want.sort();
        let mut got = validators(&s);
        got.sort();
        sym::check(got == want, "all validators are listed");
        let r = locations(&s, &(0..n).map(v).collect::<Vec<_>>());
        sym::check((0..n).all(|i| r[i].0 == hexs(&v(i)) && r[i].1 == [loc(i)]), "every validator has its location");
        sym::reach("many validators");
    }
}
