//! Framework: cases, monitors, dynamic invocation of the real wasm contracts, state snapshots.
use rand::{rngs::StdRng, Rng, SeedableRng};
use soroban_sdk::testutils::{
    Address as _, AuthorizedFunction, EnvTestConfig, Ledger, MockAuth, MockAuthInvoke,
};
use soroban_sdk::{
    xdr, Address, BytesN, Env, IntoVal, String as SString, Symbol, TryFromVal, Val, Vec as SVec,
};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::OnceLock;


pub use num_bigint::BigInt as Z;

pub fn z<T: Into<Z>>(v: T) -> Z {
    v.into()
}

pub fn zi(v: &Z) -> Option<i128> {
    i128::try_from(v.clone()).ok()
}

// ------------------------------------------------------------------------------------------ wasm

pub static WASM_DIR: OnceLock<String> = OnceLock::new();
static WASMS: OnceLock<HashMap<&'static str, Vec<u8>>> = OnceLock::new();

pub const WASM_NAMES: [&str; 9] = [
    "phoenix_factory",
    "phoenix_multihop",
    "phoenix_pool",
    "phoenix_pool_stable",
    "phoenix_stake",
    "phoenix_stake_rewards",
    "phoenix_trader",
    "phoenix_vesting",
    "soroban_token_contract",
];

pub fn load_wasms(dir: &str) -> Result<(), String> {
    let mut m = HashMap::new();
    for n in WASM_NAMES {
        let p = format!("{dir}/{n}.wasm");
        m.insert(n, std::fs::read(&p).map_err(|e| format!("{p}: {e}"))?);
    }
    let _ = WASMS.set(m);
    Ok(())
}

pub fn wasm(n: &str) -> &'static [u8] {
    WASMS.get().expect("wasms loaded").get(n).expect("known wasm")
}

// ------------------------------------------------------------------------------------------ case

/// One generated execution: its random source, its trace, and what the monitors saw.
pub struct Case {
    pub prop: String,
    pub rng: StdRng,
    pub idx: u64,
    pub trace: Vec<String>,
    pub evals: u64,
    pub sigs: HashSet<u64>,
    pub samples: Vec<String>,
    pub viol: Option<String>,
    pub counters: BTreeMap<String, u64>,
    pub known: BTreeMap<String, String>,
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Case {
    pub fn new(prop: &str, seed: u64, idx: u64, salt: &str) -> Self {
        let s = hash_of(&(seed, idx, salt, 0x9e3779b9u64));
        Case {
            prop: prop.to_string(),
            rng: StdRng::seed_from_u64(s),
            idx,
            trace: vec![],
            evals: 0,
            sigs: HashSet::new(),
            samples: vec![],
            viol: None,
            counters: BTreeMap::new(),
            known: BTreeMap::new(),
        }
    }
    pub fn on(&self, p: &str) -> bool {
        self.prop == p
    }
    pub fn bad(&self) -> bool {
        self.viol.is_some()
    }
    pub fn op(&mut self, s: String) {
        if std::env::var_os("VH_TRACE").is_some() {
            eprintln!("[{}] {s}", self.trace.len());
        }
        self.trace.push(s);
    }
    pub fn count(&mut self, k: &str) {
        *self.counters.entry(k.to_string()).or_insert(0) += 1;
    }
    /// The oracle of property `p` judged one observation; `sig` identifies it when it is non-trivial.
    pub fn eval<S: Hash + std::fmt::Debug>(&mut self, p: &str, sig: Option<S>) {
        if !self.on(p) {
            return;
        }
        self.evals += 1;
        if let Some(s) = sig {
            if self.sigs.insert(hash_of(&s)) && self.samples.len() < 3 {
                self.samples.push(format!("{s:?}"));
            }
        }
    }
    pub fn fail(&mut self, p: &str, msg: String) {
        if self.on(p) && self.viol.is_none() {
            self.trace.push(format!("!! VIOLATED {p}: {msg}"));
            self.viol = Some(msg);
        }
    }
    pub fn check(&mut self, p: &str, ok: bool, msg: impl FnOnce() -> String) {
        if !ok && self.on(p) {
            self.fail(p, msg());
        }
    }
    /// Same observation relevant to several properties.
    pub fn check_any(&mut self, ps: &[&str], ok: bool, msg: impl FnOnce() -> String) {
        if !ok && ps.iter().any(|p| self.on(p)) {
            let p = self.prop.clone();
            self.fail(&p, msg());
        }
    }
    pub fn known(&mut self, p: &str, key: &str, what: String) {
        if self.on(p) {
            self.known.entry(key.to_string()).or_insert(what);
        }
    }
    // ---- random helpers
    pub fn p(&mut self, pct: u32) -> bool {
        self.rng.gen_range(0..100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.rng.gen_range(0..v.len());
        &v[i]
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.rng.gen_range(0..n)
    }
    /// log-uniform in [1, max]
    pub fn amt(&mut self, max: i128) -> i128 {
        if max <= 1 {
            return 1;
        }
        let bits = 128 - (max as u128).leading_zeros();
        let b = self.rng.gen_range(1..=bits);
        let hi = if b >= 127 { i128::MAX } else { (1i128 << b) - 1 };
        let lo = 1i128 << (b - 1);
        self.rng.gen_range(lo..=hi).min(max).max(1)
    }
    pub fn range(&mut self, lo: i128, hi: i128) -> i128 {
        if hi <= lo {
            lo
        } else {
            self.rng.gen_range(lo..=hi)
        }
    }
    pub fn weighted(&mut self, w: &[(u32, &'static str)]) -> &'static str {
        let t: u32 = w.iter().map(|x| x.0).sum();
        let mut r = self.rng.gen_range(0..t);
        for (k, n) in w {
            if r < *k {
                return n;
            }
            r -= *k;
        }
        w[0].1
    }
}

// ------------------------------------------------------------------------------------------ lifetimes

/// What the lifetime monitor (P30) saw during the case of this thread.
#[derive(Default)]
pub struct Life {
    pub on: bool,
    pub salt: u64,
    pub n: u64,
    /// entry kind after function -> seen
    pub seen: BTreeMap<String, u64>,
    pub sigs: Vec<u64>,
    pub viol: Option<String>,
    /// asset tokens and accounts: not the repository's contracts
    pub foreign: HashSet<xdr::ScAddress>,
}

thread_local! {
    pub static LIFE: RefCell<Life> = RefCell::new(Life::default());
}

/// which wasm a contract runs: first bytes of its hash
fn hex(c: &xdr::ScAddress, all: &HashMap<Rc<xdr::LedgerKey>, Option<(Rc<xdr::LedgerEntry>, Option<u32>)>>) -> String {
    let k = xdr::LedgerKey::ContractData(xdr::LedgerKeyContractData { contract: c.clone(), key: xdr::ScVal::LedgerKeyContractInstance, durability: xdr::ContractDataDurability::Persistent });
    match all.get(&k) {
        Some(Some((e, _))) => match &e.data {
            xdr::LedgerEntryData::ContractData(d) => match &d.val {
                xdr::ScVal::ContractInstance(i) => match &i.executable {
                    xdr::ContractExecutable::Wasm(h) => WASM_NAMES.iter().find(|n| <sha2::Sha256 as sha2::Digest>::digest(wasm(n)).as_slice() == h.0).map_or("?".into(), |n| n.to_string()),
                    _ => "?".into(),
                },
                _ => "?".into(),
            },
            _ => "?".into(),
        },
        _ => "?".into(),
    }
}

pub const DAY: u32 = 17_280;

fn kind_of(k: &xdr::ScVal) -> String {
    match k {
        xdr::ScVal::LedgerKeyContractInstance => "instance".into(),
        xdr::ScVal::Vec(Some(v)) => v.iter().next().map_or("vec".into(), kind_of),
        xdr::ScVal::Symbol(s) => String::from_utf8_lossy(s.0.as_slice()).to_string(),
        xdr::ScVal::U32(n) => format!("key {n}"),
        xdr::ScVal::Address(_) => "address".into(),
        xdr::ScVal::Map(Some(m)) => format!("struct of {}", m.iter().map(|e| kind_of(&e.key)).collect::<Vec<_>>().join(",")),
        _ => "other".into(),
    }
}

// ------------------------------------------------------------------------------------------ world

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    /// `panic_with_error` code of a contract
    Code(u32),
    /// trap, host error, failed authorization, ...
    Host(String),
    /// the value could not be converted
    Conv,
}

pub type Res<T> = Result<T, Fail>;

#[derive(Clone)]
pub enum Auth {
    /// every required authorization is granted by its owner (and recorded), rooted at the call
    All,
    /// nobody signed anything
    Nobody,
    /// exactly these addresses signed exactly this root call (with no sub-invocations)
    RootBy(Vec<Address>),
}

pub struct W {
    pub env: Env,
    pub hashes: BTreeMap<&'static str, BytesN<32>>,
    /// remember where the events of the latest call start
    pub track: Cell<bool>,
    pub mark: Cell<usize>,
    /// the latest call
    root: RefCell<Option<(Address, Symbol)>>,
}

/// The whole ledger, to go back to.
pub type Saved = soroban_env_host::storage::StorageMap;

/// All contract data of the ledger: key -> (value, live_until)
pub type Snap = BTreeMap<String, (Rc<xdr::LedgerEntry>, Option<u32>)>;

#[macro_export]
macro_rules! args {
    ($env:expr $(, $a:expr)* $(,)?) => {{
        let e: &soroban_sdk::Env = $env;
        #[allow(unused_mut)]
        let mut v: soroban_sdk::Vec<soroban_sdk::Val> = soroban_sdk::Vec::new(e);
        $( { let x: soroban_sdk::Val = soroban_sdk::IntoVal::into_val(&$a, e); v.push_back(x); } )*
        v
    }};
}

impl W {
    pub fn new(seed_time: u64) -> Self {
        let env = Env::new_with_config(EnvTestConfig { capture_snapshot_at_drop: false });
        env.budget().reset_unlimited();
        env.host()
            .set_diagnostic_level(soroban_env_host::DiagnosticLevel::None)
            .unwrap();
        env.mock_all_auths();
        env.ledger().with_mut(|l| {
            l.timestamp = seed_time;
            l.sequence_number = 1000;
            // an entry nobody extends is short-lived, to see that everything is extended
            l.min_persistent_entry_ttl = if LIFE.with(|x| x.borrow().on) { 4096 } else { 6_000_000 };
            l.min_temp_entry_ttl = 6_000_000;
            l.max_entry_ttl = 6_312_000;
        });
        W { env, hashes: BTreeMap::new(), track: Cell::new(false), mark: Cell::new(0), root: RefCell::new(None) }
    }
    pub fn now(&self) -> u64 {
        self.env.ledger().timestamp()
    }
    pub fn advance(&self, dt: u64) {
        self.env.ledger().with_mut(|l| l.timestamp += dt);
    }
    pub fn addr(&self) -> Address {
        Address::generate(&self.env)
    }
    pub fn s(&self, s: &str) -> SString {
        SString::from_str(&self.env, s)
    }
    pub fn upload(&mut self, n: &'static str) -> BytesN<32> {
        if let Some(h) = self.hashes.get(n) {
            return h.clone();
        }
        let h = self.env.deployer().upload_contract_wasm(wasm(n));
        self.hashes.insert(n, h.clone());
        h
    }
    /// The same program under another hash: an empty custom section is appended.
    pub fn upload_again(&self, n: &'static str) -> BytesN<32> {
        let mut b = wasm(n).to_vec();
        b.extend([0u8, 3, 2, b'v', b'2']);
        self.env.deployer().upload_contract_wasm(b.as_slice())
    }
    /// The hash of the code a contract runs.
    pub fn code(&self, c: &Address) -> Option<BytesN<32>> {
        let id = xdr::ScAddress::try_from(c.clone()).ok()?;
        self.digest().iter().find_map(|(k, e)| match (k.as_ref(), &e.data) {
            (xdr::LedgerKey::ContractData(d), xdr::LedgerEntryData::ContractData(v)) if d.contract == id && d.key == xdr::ScVal::LedgerKeyContractInstance => match &v.val {
                xdr::ScVal::ContractInstance(i) => match &i.executable {
                    xdr::ContractExecutable::Wasm(h) => Some(BytesN::from_array(&self.env, &h.0)),
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        })
    }
    pub fn register(&self, n: &'static str) -> Address {
        self.env.register(wasm(n), ())
    }
    fn set_auth(&self, auth: &Auth, c: &Address, f: &str, a: &SVec<Val>) {
        match auth {
            Auth::All => self.env.mock_all_auths(),
            Auth::Nobody => self.env.set_auths(&[]),
            Auth::RootBy(who) => {
                let inv = MockAuthInvoke { contract: c, fn_name: f, args: a.clone(), sub_invokes: &[] };
                let ms: Vec<MockAuth> =
                    who.iter().map(|w| MockAuth { address: w, invoke: &inv }).collect();
                self.env.mock_auths(&ms);
            }
        }
    }
    /// The call on a copy of the ledger in which every entry is about to expire: afterwards whatever
    /// the call needed has to be alive for the promised time.
    #[allow(clippy::type_complexity)]
    fn life_probe(&self, auth: &Auth, c: &Address, f: &str, a: &SVec<Val>) {
        let go = matches!(auth, Auth::All)
            && LIFE.with(|x| {
                let mut x = x.borrow_mut();
                x.n += 1;
                x.on && x.viol.is_none() && hash_of(&(x.salt, x.n)) % 100 < 45
            });
        if !go {
            return;
        }
        let saved = self.save();
        let budget = soroban_env_host::budget::AsBudget::as_budget(self.env.host()).clone();
        let now = self.env.ledger().sequence();
        let foreign = LIFE.with(|x| x.borrow().foreign.clone());
        let ours = |d: &xdr::LedgerKeyContractData| {
            d.durability == xdr::ContractDataDurability::Persistent && !foreign.contains(&d.contract)
        };
        let old: Vec<_> = saved
            .iter(&budget)
            .unwrap()
            .map(|(k, v)| {
                let near = matches!(k.as_ref(), xdr::LedgerKey::ContractData(d) if ours(d));
                let v = match v {
                    Some((e, Some(_))) if near => Some((e.clone(), Some(now + 50))),
                    v => v.clone(),
                };
                (k.clone(), v)
            })
            .collect();
        let map = Saved::from_map(old, &budget).unwrap();
        self.env.host().with_mut_storage(move |s| { s.map = map; s.footprint = Default::default(); Ok(()) }).unwrap();
        self.env.budget().reset_unlimited();
        let r = self.env.try_invoke_contract::<Val, soroban_sdk::Error>(c, &Symbol::new(&self.env, f), a.clone());
        if matches!(r, Ok(Ok(_))) {
            let (fp, map) = self.env.host().with_mut_storage(|s| Ok((s.footprint.clone(), s.map.clone()))).unwrap();
            let keys: Vec<_> = fp.0.iter(&budget).unwrap().map(|x| x.0.clone()).collect();
            let all: HashMap<_, _> = map.iter(&budget).unwrap().map(|(k, v)| (k.clone(), v.clone())).collect();
            LIFE.with(|x| {
                let mut x = x.borrow_mut();
                for k in keys {
                    let xdr::LedgerKey::ContractData(d) = k.as_ref() else { continue };
                    let Some(Some((_, Some(live)))) = all.get(&k) else { continue };
                    if !ours(d) {
                        continue;
                    }
                    let inst = matches!(d.key, xdr::ScVal::LedgerKeyContractInstance);
                    let left = live.saturating_sub(now);
                    // not promised: the token's constant metadata, contracts being set up, and the
                    // other grants of a recipient when one is added
                    let excused = inst && (matches!(f, "decimals" | "name" | "symbol" | "initialize" | "initialize_with_minter") || left == 4095)
                        || f == "create_vesting_schedules" && left == 50 && matches!(d.key, xdr::ScVal::Map(_));
                    if excused {
                        continue;
                    }
                    let want = if inst { 6 * DAY } else { 29 * DAY };
                    let what = format!("{} {}", f, kind_of(&d.key));
                    *x.seen.entry(what.clone()).or_insert(0) += 1;
                    x.sigs.push(hash_of(&(what.clone(), format!("{:?}", k))));
                    if left < want && x.viol.is_none() {
                        if std::env::var_os("VH_LIFE").is_some() {
                            *x.seen.entry(format!("!! {what} {left} {}", hex(&d.contract, &all))).or_insert(0) += 1;
                            continue;
                        }
                        x.viol = Some(format!("{f} used the entry {} of a contract and left it {left} ledgers to live, instead of at least {want}: {:?}", kind_of(&d.key), d));
                    }
                }
            });
        }
        self.restore(&saved);
    }
    pub fn call_auth<T: TryFromVal<Env, Val>>(
        &self,
        auth: Auth,
        c: &Address,
        f: &str,
        a: SVec<Val>,
    ) -> Res<T> {
        self.set_auth(&auth, c, f, &a);
        self.env.budget().reset_unlimited();
        if LIFE.with(|x| x.borrow().on) {
            self.life_probe(&auth, c, f, &a);
        }
        if self.track.get() {
            self.mark.set(self.env.host().get_events().unwrap().0.len());
        }
        let name = Symbol::new(&self.env, f);
        *self.root.borrow_mut() = Some((c.clone(), name.clone()));
        let r = self.env.try_invoke_contract::<Val, soroban_sdk::Error>(c, &name, a);
        let out = match r {
            Ok(Ok(v)) => T::try_from_val(&self.env, &v).map_err(|_| Fail::Conv),
            Ok(Err(_)) => Err(Fail::Conv),
            Err(Ok(e)) => {
                if e.is_type(xdr::ScErrorType::Contract) {
                    Err(Fail::Code(e.get_code()))
                } else {
                    Err(Fail::Host(format!("{e:?}")))
                }
            }
            Err(Err(e)) => Err(Fail::Host(format!("{e:?}"))),
        };
        if !matches!(auth, Auth::All) {
            self.env.mock_all_auths();
        }
        out
    }
    /// A call and what it changed.
    pub fn watched(&self, auth: Auth, c: &Address, f: &str, a: SVec<Val>) -> (Res<Val>, Option<String>) {
        // installs the signers first: that writes to the ledger
        self.set_auth(&auth, c, f, &a);
        let d0 = self.digest();
        let r = self.call_auth(auth, c, f, a);
        (r, digest_diff(&d0, &self.digest()))
    }
    pub fn call<T: TryFromVal<Env, Val>>(&self, c: &Address, f: &str, a: SVec<Val>) -> Res<T> {
        self.call_auth(Auth::All, c, f, a)
    }
    /// A call the setup depends on.
    pub fn must<T: TryFromVal<Env, Val>>(&self, c: &Address, f: &str, a: SVec<Val>) -> T {
        match self.call(c, f, a) {
            Ok(v) => v,
            Err(e) => panic!("call of {f} that has to succeed failed: {e:?}"),
        }
    }
    /// Addresses that authorized the last call itself (in recording mode), not only something it did.
    pub fn authed(&self) -> Vec<Address> {
        let root = self.root.borrow();
        let (c, f) = root.as_ref().unwrap();
        self.env
            .auths()
            .into_iter()
            .filter(|(_, t)| matches!(&t.function, AuthorizedFunction::Contract((a, n, _)) if a == c && n == f))
            .map(|x| x.0)
            .collect()
    }
    /// Snapshot of all contract data and instances (no nonces, no code).
    pub fn snap(&self) -> Snap {
        let budget = soroban_env_host::budget::AsBudget::as_budget(self.env.host()).clone();
        let map = self.env.host().with_mut_storage(|s| Ok(s.map.clone())).unwrap();
        let mut out = Snap::new();
        for (k, v) in map.iter(&budget).unwrap() {
            if let xdr::LedgerKey::ContractData(d) = k.as_ref() {
                if matches!(d.key, xdr::ScVal::LedgerKeyNonce(_)) {
                    continue;
                }
                if let Some((e, ttl)) = v {
                    let key = format!("{:?}", k);
                    out.insert(key, (e.clone(), *ttl));
                }
            }
        }
        out
    }
    /// Cheap digest of all contract data (values only, not lifetimes).
    pub fn digest(&self) -> Vec<(Rc<xdr::LedgerKey>, Rc<xdr::LedgerEntry>)> {
        let budget = soroban_env_host::budget::AsBudget::as_budget(self.env.host()).clone();
        let map = self.env.host().with_mut_storage(|s| Ok(s.map.clone())).unwrap();
        let mut out = vec![];
        for (k, v) in map.iter(&budget).unwrap() {
            if let xdr::LedgerKey::ContractData(d) = k.as_ref() {
                if matches!(d.key, xdr::ScVal::LedgerKeyNonce(_)) {
                    continue;
                }
                if let Some((e, _)) = v {
                    out.push((k.clone(), e.clone()));
                }
            }
        }
        out
    }
    /// The ledger as it is, and back to it: what-if executions.
    pub fn save(&self) -> Saved {
        self.env.host().with_mut_storage(|s| Ok(s.map.clone())).unwrap()
    }
    pub fn restore(&self, m: &Saved) {
        let m = m.clone();
        self.env.host().with_mut_storage(move |s| { s.map = m; Ok(()) }).unwrap()
    }
    pub fn native_balance(&self, t: &Address, who: &Address) -> i128 {
        self.must(t, "balance", args!(&self.env, who.clone()))
    }
}

/// First key whose value differs between two digests.
pub fn digest_diff(
    a: &[(Rc<xdr::LedgerKey>, Rc<xdr::LedgerEntry>)],
    b: &[(Rc<xdr::LedgerKey>, Rc<xdr::LedgerEntry>)],
) -> Option<String> {
    let mut i = 0;
    let mut j = 0;
    while i < a.len() || j < b.len() {
        if i >= a.len() {
            return Some(format!("added {:?}", b[j].0));
        }
        if j >= b.len() {
            return Some(format!("removed {:?}", a[i].0));
        }
        if Rc::ptr_eq(&a[i].0, &b[j].0) || a[i].0 == b[j].0 {
            if !(Rc::ptr_eq(&a[i].1, &b[j].1) || a[i].1.data == b[j].1.data) {
                return Some(format!("changed {:?}", a[i].0));
            }
            i += 1;
            j += 1;
        } else if a[i].0 < b[j].0 {
            return Some(format!("removed {:?}", a[i].0));
        } else {
            return Some(format!("added {:?}", b[j].0));
        }
    }
    None
}

pub fn short(a: &Address) -> String {
    let s = format!("{a:?}");
    let n = s.len();
    s[n.saturating_sub(7)..n.saturating_sub(1)].to_string()
}

pub fn uniq<T: Ord + Clone>(v: &[T]) -> Vec<T> {
    v.iter().cloned().collect::<BTreeSet<_>>().into_iter().collect()
}

pub fn into<T: IntoVal<Env, Val>>(env: &Env, t: T) -> Val {
    t.into_val(env)
}

pub fn zdiv(a: &Z, b: &Z) -> Z {
    // both non-negative in all uses: floor
    use num_integer::Integer;
    a.div_floor(b)
}

/// One call, made on copies of the current state by its owner and by those who may not make it.
/// `owner`: the account whose signature alone has to be enough (none: not judged).
#[allow(clippy::too_many_arguments)]
pub fn twin(c: &mut Case, w: &W, prop: &str, con: &Address, f: &str, a: &SVec<Val>, owner: Option<&Address>, intruders: &[Address]) {
    if !c.on(prop) {
        return;
    }
    let saved = w.save();
    let r: Res<Val> = w.call(con, f, a.clone());
    w.restore(&saved);
    let works = r.is_ok();
    c.op(format!("{f} on a copy with every signature: {}", if works { "ok".into() } else { format!("{r:?}") }));
    c.count(&format!("{f}: {}", if works { "possible when signed" } else { "impossible anyway" }));
    let state = hash_of(&format!("{:?}", a));
    if let (Some(o), true) = (owner, works) {
        let (r, _) = w.watched(Auth::RootBy(vec![o.clone()]), con, f, a.clone());
        if r.is_ok() && (f == "update" || f == "upgrade") {
            let (is, to) = (w.code(con), BytesN::<32>::try_from_val(&w.env, &a.get_unchecked(0)).ok());
            c.check(prop, is == to, || format!("after {f} to the code {to:?} the contract runs {is:?}"));
        }
        w.restore(&saved);
        c.eval(prop, Some((f.to_string(), "owner", state)));
        c.check(prop, r.is_ok(), || format!("{f} with its owner's signature is refused: {r:?}"));
    }
    let mut tries = vec![("nobody's signature".to_string(), Auth::Nobody)];
    for (k, i) in intruders.iter().enumerate() {
        tries.push((format!("only the signature of intruder {k}"), Auth::RootBy(vec![i.clone()])));
    }
    for (who, auth) in tries {
        let (r, diff) = w.watched(auth, con, f, a.clone());
        w.restore(&saved);
        c.eval(prop, if works { Some((f.to_string(), who.clone(), state)) } else { None });
        c.check(prop, r.is_err(), || format!("{f} succeeded with {who}"));
        c.check(prop, diff.is_none(), || format!("{f} with {who} changed {diff:?}"));
    }
}

/// The administrator installs the same code anew: nothing changes.
pub fn reinstall(c: &mut Case, w: &mut W, con: &Address, name: &'static str) {
    let hash = w.upload(name);
    let d0 = w.digest();
    let r: Res<Val> = w.call(con, "update", args!(&w.env, hash));
    c.op(format!("update {name} to the same code: {}", r.is_ok()));
    c.eval("P10", Some(("reinstall", name, c.idx, c.trace.len())));
    c.check("P10", r.is_ok(), || format!("installing the code of {name} with every signature: {r:?}"));
    let diff = digest_diff(&d0, &w.digest());
    c.check("P10", diff.is_none(), || format!("installing the code {name} already runs changed {diff:?}"));
}
