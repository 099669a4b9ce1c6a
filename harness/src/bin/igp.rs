//! Interchain gas paymaster and its gas oracle.
use cosmwasm_std::*;
use hpl_igp::contract::{execute, instantiate, query};
use hpl_interface::hook::*;
use hpl_interface::igp::core::*;
use hpl_interface::igp::oracle::{self as orc, GetExchangeRateAndGasPriceResponse, IgpGasOracleQueryMsg, RemoteGasDataConfig};
use hpl_interface::ownable::*;
use hpl_interface::router::*;
use hpl_interface::Order;
use vh::*;

sym::harnesses! {
    h_g01_quote, h_g01_down, h_g01_big, h_g01_dispatch, h_g01d_dispatch, h_g02_pay, h_g02d_pay, h_g02_refund, h_g02_exact, h_g02_down, h_g03_admin, h_g03_claim, h_g03_gas, h_g03_page, h_g03d_gas, h_g04_oracle, h_g04_batch, h_g04d_oracle,
}

const SCALE: u128 = 10_000_000_000;

fn setup(hrp: &str, default_gas: u128) -> Store {
    let mut s = Store::new();
    let m = InstantiateMsg {
        hrp: hrp.into(),
        owner: "owner".into(),
        gas_token: "ugas".into(),
        beneficiary: "bene".into(),
        default_gas_usage: default_gas,
    };
    let r = tx(&mut s, &Q::none(), |d| instantiate(d, env(), info("deployer", vec![]), m));
    sym::check(r.is_some(), "instantiation succeeds");
    s
}
fn ex(s: &mut Store, q: &Q, who: &str, funds: Vec<Coin>, m: ExecuteMsg) -> Option<Response> {
    tx(s, q, |d| execute(d, env(), info(who, funds), m))
}
fn own(s: &mut Store, m: ExecuteMsg) {
    sym::check(ex(s, &Q::none(), "owner", vec![], m).is_some(), "the owner can configure the paymaster");
}
fn set_route(domain: u32, oracle: &str) -> ExecuteMsg {
    ExecuteMsg::Router(RouterMsg::SetRoute { set: DomainRouteSet { domain, route: Some(Addr::unchecked(oracle)) } })
}
fn iq<T: serde::de::DeserializeOwned>(s: &Store, q: &Q, m: IgpQueryMsg) -> Option<T> {
    qry(s, q, |d| query(d, env(), QueryMsg::Igp(m)))
}
/// a symbolic number below 2^(8 * N)
fn num<const N: usize>(n: &str) -> u128 {
    let b: [u8; N] = sym::bytes(n);
    let mut r = [0u8; 16];
    r[..N].copy_from_slice(&b);
    u128::from_le_bytes(r)
}
/// answers of a gas oracle contract
fn oracle<'a>(at: &'a str, domain: u32, price: u128, rate: u128) -> impl Fn(&str, &Binary) -> Option<Binary> + 'a {
    move |a: &str, b: &Binary| {
        sym::check(seq(a, at), "the oracle configured for the destination is asked");
        let Ok(orc::QueryMsg::Oracle(IgpGasOracleQueryMsg::GetExchangeRateAndGasPrice { dest_domain })) = from_json::<orc::QueryMsg>(b) else { return None };
        sym::check(dest_domain == domain, "the oracle is asked about the destination");
        some_js(&GetExchangeRateAndGasPriceResponse { gas_price: price.into(), exchange_rate: rate.into() })
    }
}

fn u256(x: u128) -> Uint256 {
    Uint256::from(x)
}
/// the specified quote; None = does not fit into 256 bits
fn spec(gas: Uint256, price: u128, rate: u128) -> Option<Uint256> {
    let c = gas.checked_mul(u256(price)).ok()?.checked_mul(u256(rate)).ok()?;
    Some(c / u256(SCALE))
}
/// 256-bit number with the lowest N bytes symbolic
fn big<const N: usize>(n: &str) -> Uint256 {
    let b: [u8; N] = sym::bytes(n);
    let mut r = [0u8; 32];
    r[32 - N..].copy_from_slice(&b);
    Uint256::from_be_bytes(r)
}
fn gasq(s: &Store, q: &Q, dest: u32, gas: Uint256) -> Option<Uint256> {
    iq::<QuoteGasPaymentResponse>(s, q, IgpQueryMsg::QuoteGasPayment { dest_domain: dest, gas_amount: gas }).map(|r| r.gas_needed)
}
fn msg_to(dest: u32, sender: &[u8; 32]) -> HexBinary {
    let rcpt: [u8; 32] = sym::bytes("recipient");
    HexBinary::from(wire(3, sym::u32_("nonce"), sym::u32_("origin"), sender, dest, &rcpt, b"body"))
}
fn some_msg(dest: u32) -> HexBinary {
    msg_to(dest, &pad32(&sym::bytes::<20>("msgsender")))
}
fn dispq(s: &Store, q: &Q, metadata: &[u8], message: &HexBinary) -> Option<Vec<Coin>> {
    let m = QuoteDispatchMsg { metadata: metadata.to_vec().into(), message: message.clone() };
    qry::<_, QuoteDispatchResponse>(s, q, |d| query(d, env(), QueryMsg::Hook(HookQueryMsg::QuoteDispatch(m)))).map(|r| r.fees)
}

// ------------------------------------------------------------------ G01 quote

fn routed(s: &mut Store) -> (u32, u32) {
    let (d1, d2) = (sym::u32_("d1"), sym::u32_("d2"));
    sym::assume(d1 != d2);
    own(s, set_route(d1, "oracle1"));
    own(s, set_route(d2, "oracle2"));
    (d1, d2)
}
fn at(ask: u32, d: (u32, u32)) -> &'static str {
    if ask == d.0 {
        "oracle1"
    } else if ask == d.1 {
        "oracle2"
    } else {
        "none"
    }
}
#[no_mangle]
pub extern "C-unwind" fn h_g01_quote() {
    let mut s = setup("osmo", 1);
    let d = routed(&mut s);
    let (gas, price, rate) = (big::<6>("gas"), num::<4>("price"), num::<5>("rate"));
    let ask = sym::u32_("ask");
    let at = at(ask, d);
    let f = oracle(at, ask, price, rate);
    let q = Q::smart(&f);
    let r = gasq(&s, &q, ask, gas);
    if at == "none" {
        sym::check(r.is_none(), "a destination without oracle has no quote");
        sym::reach("unknown");
        return;
    }
    sym::check(r.is_some(), "a quote is given");
    sym::check(r == spec(gas, price, rate), "the quote is gas * price * rate / 10^10, rounded down");
    let r: Option<GetExchangeRateAndGasPriceResponse> =
        qry(&s, &q, |d| query(d, env(), QueryMsg::Oracle(IgpGasOracleQueryMsg::GetExchangeRateAndGasPrice { dest_domain: ask })));
    let r = r.unwrap();
    sym::check((r.gas_price.u128() == price) & (r.exchange_rate.u128() == rate), "the oracle data is passed on unchanged");
    sym::reach("quoted");
}
/// every 256-bit amount of gas: the exact quote or none at all
#[no_mangle]
pub extern "C-unwind" fn h_g01_big() {
    let mut s = setup("osmo", 1);
    own(&mut s, set_route(7, "oracle1"));
    let gas = big::<32>("gas");
    let (price, rate) = match sym::choice("data", 4) {
        0 => (1, 1),
        1 => (1 << 100, SCALE),
        2 => (u128::MAX, u128::MAX),
        _ => (3, SCALE * 7 + 1),
    };
    let f = oracle("oracle1", 7, price, rate);
    let q = Q::smart(&f);
    let want = spec(gas, price, rate);
    let got = gasq(&s, &q, 7, gas);
    sym::check(got == want, "the quote is exact, or there is none when it does not fit");
    if want.is_none() {
        sym::reach("overflow");
    } else {
        sym::reach("fits");
    }
}
fn g01_dispatch<const N: usize>() {
    let (dg, sg) = (num::<6>("default"), num::<6>("special"));
    let mut s = setup("osmo", dg);
    let (d1, d2) = routed(&mut s);
    own(&mut s, ExecuteMsg::SetGasForDomain { config: vec![(d2, sg)] });
    let (price, rate) = match sym::choice("data", 3) {
        0 => (1, SCALE),
        1 => (1 << 90, SCALE / 2),
        _ => (3, SCALE * 7 + 1),
    };
    let dest = if sym::flag("second") { d2 } else { d1 };
    let mut md: [u8; N] = sym::bytes("metadata");
    if N >= 32 {
        // larger amounts of gas: see h_g01_big
        md[..26].fill(0);
    }
    let gas = if N >= 32 {
        Uint256::from_be_bytes(md[..32].try_into().unwrap())
    } else if dest == d2 {
        u256(sg)
    } else {
        u256(dg)
    };
    let f = oracle(if dest == d2 { "oracle2" } else { "oracle1" }, dest, price, rate);
    let q = Q::smart(&f);
    let r = dispq(&s, &q, &md, &some_msg(dest));
    let want = spec(gas, price, rate).unwrap();
    if want > u256(u128::MAX) {
        sym::check(r.is_none(), "a fee that cannot be paid is not quoted");
        sym::reach("unpayable");
        return;
    }
    sym::check(r.is_some(), "dispatching to a known destination has a quote");
    let r = r.unwrap();
    if want.is_zero() {
        sym::check(r.is_empty(), "no fee when nothing is to be paid");
        sym::reach("free");
    } else {
        sym::check(r.len() == 1 && r[0].denom == "ugas", "the fee is one coin of the gas token");
        sym::check(u256(r[0].amount.u128()) == want, "the dispatch quote follows the metadata, or the gas configured for the destination");
        sym::reach("fee");
    }
}
#[no_mangle]
pub extern "C-unwind" fn h_g01_dispatch() {
    match sym::choice("metadata size", 4) {
        0 => g01_dispatch::<0>(),
        1 => g01_dispatch::<31>(),
        2 => g01_dispatch::<32>(),
        _ => g01_dispatch::<52>(),
    }
}
#[no_mangle]
pub extern "C-unwind" fn h_g01d_dispatch() {
    match sym::choice("metadata size", 6) {
        0 => g01_dispatch::<1>(),
        1 => g01_dispatch::<20>(),
        2 => g01_dispatch::<63>(),
        3 => g01_dispatch::<33>(),
        4 => g01_dispatch::<64>(),
        _ => g01_dispatch::<96>(),
    }
}

// ---------------------------------------------------------------- G02 payment

/// Paying: accepted iff enough of exactly the gas token was sent (nothing need
/// be sent when nothing is owed); the excess, and nothing else, is returned.
fn judge(r: Option<Response>, funds: &[Coin], want: Uint256, refund_to: &str) {
    let paid = amt(funds, "ugas");
    let only_gas = funds.len() == 1 && funds[0].denom == "ugas";
    let r = match r {
        None => {
            let owed_ok = (only_gas && paid > 0 && u256(paid) >= want) || (funds.is_empty() && want.is_zero());
            sym::check(!owed_ok, "a sufficient payment in the gas token is accepted");
            sym::reach("refused");
            return;
        }
        Some(r) => r,
    };
    sym::check(u256(paid) >= want, "less than the quote is never accepted");
    sym::check(funds.is_empty() || only_gas, "only the gas token is accepted");
    let diff = u256(paid) - want;
    let m = msgs(&r);
    if diff.is_zero() {
        sym::check(m.is_empty(), "nothing is returned after an exact payment");
        sym::reach("exact");
        return;
    }
    sym::check(m.len() == 1, "the excess is returned in one transfer");
    let (to, c) = bank_send(m[0]).expect("a bank transfer");
    sym::check(seq(to, refund_to), "the excess goes to the refund address");
    sym::check(c.len() == 1 && c[0].denom == "ugas" && u256(c[0].amount.u128()) == diff, "exactly the excess is returned");
    sym::reach("refund");
}
fn coins_choice() -> Vec<Coin> {
    match sym::choice("funds", 5) {
        0 => vec![],
        1 => vec![coin_(num::<8>("paid"), "ugas")],
        2 => vec![coin_(num::<8>("paid"), "uother")],
        3 => vec![coin_(num::<8>("paid"), "ugas"), coin_(num::<8>("other"), "uother")],
        _ => vec![coin_(num::<8>("other"), "aother"), coin_(num::<8>("paid"), "ugas")],
    }
}
fn pay(price: u128, rate: u128, gas: Uint256) {
    let mut s = setup("osmo", 1);
    own(&mut s, set_route(7, "oracle1"));
    let f = oracle("oracle1", 7, price, rate);
    let q = Q::smart(&f);
    let to = sym::text("refund", 5);
    let funds = coins_choice();
    let who = sym::name("payer", [4, 5, 7][sym::choice("payer size", 3)]);
    let before = s.clone();
    let r = ex(&mut s, &q, &who, funds.clone(), ExecuteMsg::PayForGas { message_id: sym::vec("id", 32).into(), dest_domain: 7, gas_amount: gas, refund_address: to.clone() });
    judge(r, &funds, spec(gas, price, rate).unwrap(), &to);
    sym::check(same_store(&before, &s), "payments leave the configuration alone");
}
fn same_store(a: &Store, b: &Store) -> bool {
    a.kv.len() == b.kv.len() && a.kv == b.kv
}
#[no_mangle]
pub extern "C-unwind" fn h_g02_pay() {
    let (price, rate) = match sym::choice("data", 4) {
        0 => (0, 1),
        1 => (1, SCALE),
        2 => (3, 1_234_567_891),
        _ => (1_000_003, SCALE * 5),
    };
    pay(price, rate, big::<8>("gas"));
}
#[no_mangle]
pub extern "C-unwind" fn h_g02d_pay() {
    pay(num::<2>("price"), num::<3>("rate"), big::<3>("gas"));
}
fn refund_rule(md: &[u8], sender: &[u8; 32], hrp: &str) -> String {
    let raw: &[u8] = match md.len() {
        52 | 64 => &md[32..],
        _ => sender,
    };
    let z = raw.len() == 32 && raw[..12].iter().fold(0u8, |a, b| a | *b) == 0;
    bech(hrp, if z { &raw[12..] } else { raw })
}
fn g02_refund<const N: usize>(hrp: &str) {
    let mut s = setup(hrp, 5);
    own(&mut s, set_route(7, "oracle1"));
    let f = oracle("oracle1", 7, 1, SCALE);
    let q = Q::smart(&f);
    let mut md: [u8; N] = sym::bytes("metadata");
    let gas = if N >= 32 {
        md[..32].fill(0);
        md[31] = 9;
        9u128
    } else {
        5
    };
    let sender: [u8; 32] = sym::bytes("sender");
    let message = msg_to(7, &sender);
    let funds = coins_choice();
    let r = ex(&mut s, &q, "mailbox", funds.clone(), ExecuteMsg::PostDispatch(PostDispatchMsg { metadata: md.to_vec().into(), message }));
    judge(r, &funds, u256(gas), &refund_rule(&md, &sender, hrp));
}
#[no_mangle]
pub extern "C-unwind" fn h_g02_refund() {
    match sym::choice("metadata size", 6) {
        0 => g02_refund::<0>("osmo"),
        1 => g02_refund::<31>("osmo"),
        2 => g02_refund::<32>("osmo"),
        3 => g02_refund::<51>("neutron"),
        4 => g02_refund::<52>("neutron"),
        _ => g02_refund::<64>("osmo"),
    }
}
/// Whatever was quoted for a dispatch is enough to dispatch, and a smaller
/// amount is not.
#[no_mangle]
pub extern "C-unwind" fn h_g02_exact() {
    let mut s = setup("osmo", num::<4>("default"));
    own(&mut s, set_route(7, "oracle1"));
    let (price, rate) = match sym::choice("data", 4) {
        0 => (0, 1),
        1 => (1, SCALE),
        2 => (3, 1_234_567_891),
        _ => (num::<3>("price"), SCALE),
    };
    let f = oracle("oracle1", 7, price, rate);
    let q = Q::smart(&f);
    let mut md = vec![];
    if sym::flag("metadata") {
        md = vec![0; 28];
        md.extend_from_slice(&sym::vec("gas", 4));
        md.extend_from_slice(&sym::vec("refund", 20));
    }
    let message = some_msg(7);
    let fees = dispq(&s, &q, &md, &message);
    sym::check(fees.is_some(), "there is a quote");
    let fees = fees.unwrap();
    let mut less = fees.clone();
    let r = ex(&mut s, &q, "mailbox", fees.clone(), ExecuteMsg::PostDispatch(PostDispatchMsg { metadata: md.clone().into(), message: message.clone() }));
    sym::check(r.is_some(), "paying exactly the quote is enough");
    sym::check(msgs(&r.unwrap()).is_empty(), "nothing is left over of an exact payment");
    if fees.is_empty() {
        sym::reach("free");
        return;
    }
    less[0].amount -= Uint128::one();
    let r = ex(&mut s, &q, "mailbox", less, ExecuteMsg::PostDispatch(PostDispatchMsg { metadata: md.into(), message }));
    sym::check(r.is_none(), "one unit less than the quote is refused");
    sym::reach("paid");
}

// ------------------------------------------------------- G03 administration

fn gas_of(s: &Store, d: u32) -> Option<Vec<(u32, u128)>> {
    iq::<GasForDomainResponse>(s, &Q::none(), IgpQueryMsg::GasForDomain { domains: vec![d] }).map(|r| r.gas)
}
fn bene(s: &Store) -> String {
    iq::<BeneficiaryResponse>(s, &Q::none(), IgpQueryMsg::Beneficiary {}).unwrap().beneficiary
}
fn default_gas(s: &Store) -> u128 {
    iq::<DefaultGasResponse>(s, &Q::none(), IgpQueryMsg::DefaultGas {}).unwrap().gas
}
/// Only the owner configures, and each setting changes exactly what it names.
#[no_mangle]
pub extern "C-unwind" fn h_g03_admin() {
    let mut s = setup("osmo", 11);
    let (d1, d2, other) = (sym::u32_("d1"), sym::u32_("d2"), sym::u32_("other"));
    sym::assume(sym::all(&[d1 != d2, other != d1, other != d2]));
    let (g1, g2) = (num::<16>("g1"), num::<16>("g2"));
    own(&mut s, ExecuteMsg::SetGasForDomain { config: vec![(d1, 5)] });
    let who = if sym::flag("owner") { "owner".to_string() } else { sym::name("who", 5) };
    let k = sym::choice("what", 8);
    let nb = if sym::flag("valid") { sym::text("nb", 4) } else { "!nb".to_string() };
    let m = match k {
        0 => ExecuteMsg::SetDefaultGas { gas: g1 },
        1 => ExecuteMsg::SetGasForDomain { config: vec![(d1, g1), (d2, g2)] },
        2 => ExecuteMsg::UnsetGasForDomain { domains: vec![d2, d1] },
        3 => ExecuteMsg::SetBeneficiary { beneficiary: nb.clone() },
        4 => set_route(d1, "oracle9"),
        6 => ExecuteMsg::SetGasForDomain { config: vec![(d1, 6), (d2, 7), (d2, g2), (d1, g1)] },
        7 => ExecuteMsg::UnsetGasForDomain { domains: vec![d1, d1, other] },
        _ => ExecuteMsg::Router(RouterMsg::SetRoutes { set: vec![DomainRouteSet { domain: d1, route: Some(Addr::unchecked("oracle9")) }] }),
    };
    let before = s.clone();
    let r = ex(&mut s, &Q::none(), &who, vec![], m);
    if who != "owner" {
        sym::check(r.is_none(), "only the owner configures the paymaster");
        sym::check(same_store(&before, &s), "a refused call changes nothing");
        sym::reach("stranger");
        return;
    }
    let ok = k != 3 || VApi.addr_validate(&nb).is_ok();
    sym::check(r.is_some() == ok, "the owner can configure, with valid addresses");
    if !ok {
        sym::reach("invalid");
        return;
    }
    sym::check(r.unwrap().messages.is_empty(), "configuration moves no funds");
    sym::check(default_gas(&s) == if k == 0 { g1 } else { 11 }, "default gas");
    let w1 = match k {
        1 | 6 => Some(vec![(d1, g1)]),
        2 | 7 => None,
        _ => Some(vec![(d1, 5)]),
    };
    sym::check(gas_of(&s, d1) == w1, "gas of the first destination");
    sym::check(gas_of(&s, d2) == if k == 1 || k == 6 { Some(vec![(d2, g2)]) } else { None }, "gas of the second destination");
    sym::check(gas_of(&s, other).is_none(), "other destinations keep the default");
    sym::check(bene(&s) == if k == 3 { nb.as_str() } else { "bene" }, "beneficiary");
    sym::reach("configured");
}
/// Only the beneficiary collects, and it receives everything collected.
#[no_mangle]
pub extern "C-unwind" fn h_g03_claim() {
    let mut s = setup("osmo", 11);
    let b = match sym::choice("beneficiary", 2) {
        0 => "bene".to_string(),
        _ => {
            let b = sym::name("b", 4);
            own(&mut s, ExecuteMsg::SetBeneficiary { beneficiary: b.clone() });
            b
        }
    };
    let who = match sym::choice("who", 3) {
        0 => "owner".to_string(),
        1 => b.clone(),
        _ => sym::name("w", 4),
    };
    let have = num::<16>("balance");
    let bank = |a: &str, d: &str| if a == SELF && d == "ugas" { have } else { 77 };
    let smart = |_: &str, _: &Binary| None;
    let q = Q::both(&smart, &bank);
    let r = ex(&mut s, &q, &who, vec![], ExecuteMsg::Claim {});
    if who != b {
        sym::check(r.is_none(), "only the beneficiary collects");
        sym::reach("refused");
        return;
    }
    if have == 0 {
        // nothing to send: an empty transfer or an error are both harmless
        sym::reach("empty");
        return;
    }
    sym::check(r.is_some(), "the beneficiary can collect");
    let r = r.unwrap();
    let m = msgs(&r);
    sym::check(m.len() == 1, "one transfer");
    let (to, c) = bank_send(m[0]).expect("a bank transfer");
    sym::check(seq(to, &b), "the beneficiary receives");
    sym::check(c.len() == 1 && c[0].denom == "ugas" && c[0].amount.u128() == have, "the whole balance of the gas token");
    sym::reach("claimed");
}
/// Listing per-destination gas: in order, after the offset, at most `limit`.
fn g03_list(n: usize) {
    let mut s = setup("osmo", 11);
    let ds = [3u32, 256, 70_000, 16_777_216 * 200];
    let mut all: Vec<(u32, u128)> = vec![];
    for i in (0..n).rev() {
        let g = num::<4>("g");
        own(&mut s, ExecuteMsg::SetGasForDomain { config: vec![(ds[i], g)] });
        all.insert(0, (ds[i], g));
    }
    let off = if sym::flag("from") { Some(sym::u32_("offset")) } else { None };
    let lim = match sym::choice("limit", 5) {
        0 => None,
        1 => Some(0),
        2 => Some(2),
        3 => Some(30),
        _ => Some(31),
    };
    let ord = match sym::choice("order", 3) {
        0 => None,
        1 => Some(Order::Asc),
        _ => Some(Order::Desc),
    };
    let desc = ord == Some(Order::Desc);
    let r = iq::<GasForDomainResponse>(&s, &Q::none(), IgpQueryMsg::ListGasForDomains { offset: off, limit: lim, order: ord });
    if lim == Some(31) {
        sym::check(r.is_none(), "more than 30 entries cannot be asked for");
        sym::reach("oversized");
        return;
    }
    if desc {
        all.reverse();
    }
    let want: Vec<(u32, u128)> = all
        .into_iter()
        .filter(|x| match off {
            None => true,
            Some(o) => (if desc { x.0 < o } else { x.0 > o }),
        })
        .take(lim.unwrap_or(10) as usize)
        .collect();
    sym::check(r.is_some() && r.unwrap().gas == want, "the page has the configured destinations after the offset, in order");
    sym::reach("listed");
}
#[no_mangle]
pub extern "C-unwind" fn h_g03_gas() {
    g03_list(3);
}
#[no_mangle]
pub extern "C-unwind" fn h_g03d_gas() {
    g03_list(4);
}

// ------------------------------------------------------------ G04 gas oracle

fn osetup() -> Store {
    let mut s = Store::new();
    let r = tx(&mut s, &Q::none(), |d| hpl_igp_oracle::contract::instantiate(d, env(), info("deployer", vec![]), orc::InstantiateMsg { owner: "owner".into() }));
    sym::check(r.is_some(), "instantiation succeeds");
    s
}
fn oex(s: &mut Store, who: &str, m: orc::ExecuteMsg) -> bool {
    tx(s, &Q::none(), |d| hpl_igp_oracle::contract::execute(d, env(), info(who, vec![]), m)).is_some()
}
fn oq(s: &Store, d: u32) -> Option<(u128, u128)> {
    qry::<_, GetExchangeRateAndGasPriceResponse>(s, &Q::none(), |x| {
        hpl_igp_oracle::contract::query(x, env(), orc::QueryMsg::Oracle(IgpGasOracleQueryMsg::GetExchangeRateAndGasPrice { dest_domain: d }))
    })
    .map(|r| (r.gas_price.u128(), r.exchange_rate.u128()))
}
fn cfg(d: u32, price: u128, rate: u128) -> RemoteGasDataConfig {
    RemoteGasDataConfig { remote_domain: d, gas_price: price.into(), token_exchange_rate: rate.into() }
}
/// A history of updates: the answer for a destination is the last accepted
/// update naming it.
fn g04(steps: usize, sizes: usize) {
    let mut s = osetup();
    let ask = sym::u32_("ask");
    let mut want: Option<(u128, u128)> = None;
    for _ in 0..steps {
        let who = if sym::flag("owner") { "owner".to_string() } else { sym::name("who", 5) };
        let n = sym::choice("batch", sizes);
        let mut v = vec![];
        for _ in 0..n.max(1) {
            v.push((sym::u32_("domain"), num::<16>("price"), num::<16>("rate")));
        }
        let m = if n == 0 {
            orc::ExecuteMsg::SetRemoteGasData { config: cfg(v[0].0, v[0].1, v[0].2) }
        } else {
            orc::ExecuteMsg::SetRemoteGasDataConfigs { configs: v.iter().map(|x| cfg(x.0, x.1, x.2)).collect() }
        };
        let before = s.clone();
        let done = oex(&mut s, &who, m);
        let zero = v.iter().any(|x| x.2 == 0);
        sym::check(done == (who == "owner" && !zero), "exactly the owner sets gas data, and never a zero exchange rate");
        if done {
            for x in &v {
                if x.0 == ask {
                    want = Some((x.1, x.2));
                }
            }
            sym::reach("set");
        } else {
            sym::check(same_store(&before, &s), "a refused update changes nothing");
            if zero {
                sym::reach("zero");
            } else {
                sym::reach("stranger");
            }
        }
    }
    let got = oq(&s, ask);
    sym::check(got == want, "the latest data of the destination is reported");
    if got.is_some() {
        sym::reach("known data");
    } else {
        sym::reach("no data");
    }
}
#[no_mangle]
pub extern "C-unwind" fn h_g04_oracle() {
    g04(2, 2);
}
#[no_mangle]
pub extern "C-unwind" fn h_g04_batch() {
    g04(1, 3);
}
#[no_mangle]
pub extern "C-unwind" fn h_g04d_oracle() {
    g04(3, 2);
}

/// A table larger than any page: every page has as many entries as asked for.
#[no_mangle]
pub extern "C-unwind" fn h_g03_page() {
    let mut s = setup("osmo", 7);
    let t: Vec<(u32, u128)> = (0..36u32).map(|i| (i * 9 + (i / 10) * 70000, 1000 + i as u128)).collect();
    own(&mut s, ExecuteMsg::SetGasForDomain { config: t.clone() });
    let desc = sym::flag("descending");
    let lim = [None, Some(1), Some(29), Some(30)][sym::choice("limit", 4)];
    let (mut seen, mut off) = (vec![], None);
    loop {
        let m = IgpQueryMsg::ListGasForDomains { offset: off, limit: lim, order: Some(if desc { Order::Desc } else { Order::Asc }) };
        let r = iq::<GasForDomainResponse>(&s, &Q::none(), m).expect("a page").gas;
        let n = (lim.unwrap_or(10) as usize).min(t.len() - seen.len());
        sym::check(r.len() == n, "a page has as many entries as asked for, or all that are left");
        let Some(l) = r.last() else { break };
        off = Some(l.0);
        seen.extend(r);
    }
    if desc {
        seen.reverse();
    }
    sym::check(seen == t, "paging visits every entry exactly once");
    sym::reach("paged");
}

/// The oracle of one destination fails, any other would answer.
fn down(spend: bool) {
    let mut s = setup("osmo", 5);
    let d = routed(&mut s);
    let ask = sym::u32_("ask");
    let at = at(ask, d);
    let f = |a: &str, b: &Binary| match from_json::<orc::QueryMsg>(b) {
        Ok(orc::QueryMsg::Oracle(_)) if a != at => some_js(&GetExchangeRateAndGasPriceResponse { gas_price: 1u128.into(), exchange_rate: SCALE.into() }),
        _ => None,
    };
    let q = Q::smart(&f);
    let (gas, m) = (big::<6>("gas"), some_msg(ask));
    if spend {
        let f = vec![coin_(u128::MAX, "ugas")];
        let r = ex(&mut s, &q, "payer", f.clone(), ExecuteMsg::PayForGas { message_id: vec![1; 32].into(), dest_domain: ask, gas_amount: gas, refund_address: "payer".into() });
        sym::check(r.is_none(), "no payment is taken at a price nobody gave");
        let r = ex(&mut s, &q, "mailbox", f, ExecuteMsg::PostDispatch(PostDispatchMsg { metadata: vec![].into(), message: m }));
        sym::check(r.is_none(), "no dispatch is paid for at a price nobody gave");
    } else {
        sym::check(gasq(&s, &q, ask, gas).is_none(), "no quote without the destination's oracle");
        sym::check(dispq(&s, &q, &[], &m).is_none(), "no dispatch quote without the destination's oracle");
    }
    sym::reach("no price");
}
#[no_mangle]
pub extern "C-unwind" fn h_g01_down() {
    down(false)
}
#[no_mangle]
pub extern "C-unwind" fn h_g02_down() {
    down(true)
}
