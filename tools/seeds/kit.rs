//! Helpers of the demonstrations: clients on shared tables, with a hook called around each request.
#![allow(dead_code)]
pub use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    future::Future,
    rc::Rc,
};

use std::{
    pin::pin,
    ptr,
    task::{Context, Poll, RawWaker, RawWakerVTable, Waker},
};

use async_trait::async_trait;
pub use cosmian_findex::*;

#[derive(Debug)]
pub struct DbErr(pub String);
impl std::fmt::Display for DbErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for DbErr {}
impl DbInterfaceErrorTrait for DbErr {}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Ok,
    /// Not executed, error.
    Refuse,
    /// Executed, but an error is reported.
    LoseReply,
    /// Not executed and the client is gone.
    Crash,
    /// Executed and the client is gone.
    CrashAfter,
}

/// Called with the table ("et" or "ct"), the request and its number of tokens.
pub type Hook = Rc<RefCell<Option<Box<dyn FnMut(&str, &str, usize) -> Act>>>>;

pub struct Db<const N: usize> {
    mem: Rc<InMemoryDb<N>>,
    table: &'static str,
    hook: Hook,
    pauses: Pauses,
}

impl<const N: usize> Db<N> {
    fn ask(&self, kind: &str, n: usize) -> Act {
        let f = self.hook.borrow_mut().take();
        if let Some(mut f) = f {
            let a = f(self.table, kind, n);
            *self.hook.borrow_mut() = Some(f);
            a
        } else {
            Act::Ok
        }
    }
    async fn run<T>(
        &self,
        kind: &str,
        n: usize,
        f: impl Future<Output = Result<T, <InMemoryDb<N> as DbInterface<N>>::Error>>,
    ) -> Result<T, DbErr> {
        let mut gate = None;
        for (t, k, left, open) in self.pauses.borrow_mut().iter_mut() {
            if t == self.table && k == kind && *left > 0 {
                *left -= 1;
                if *left == 0 {
                    gate = Some(open.clone());
                }
            }
        }
        if let Some(open) = gate {
            std::future::poll_fn(|_| if open.get() { Poll::Ready(()) } else { Poll::Pending }).await;
        }
        let a = self.ask(kind, n);
        match a {
            Act::Refuse => return Err(DbErr("refused".into())),
            Act::Crash => std::future::pending::<()>().await,
            _ => {}
        }
        let r = f.await.map_err(|e| DbErr(format!("{e:?}")));
        match a {
            Act::LoseReply => Err(DbErr("reply lost".into())),
            Act::CrashAfter => std::future::pending().await,
            _ => r,
        }
    }
}

#[async_trait(?Send)]
impl<const N: usize> DbInterface<N> for Db<N> {
    type Error = DbErr;
    async fn dump_tokens(&self) -> Result<Tokens, DbErr> {
        self.run("dump", 0, self.mem.dump_tokens()).await
    }
    async fn fetch(&self, t: Tokens) -> Result<TokenWithEncryptedValueList<N>, DbErr> {
        self.run("fetch", t.len(), self.mem.fetch(t)).await
    }
    async fn upsert(
        &self,
        a: TokenToEncryptedValueMap<N>,
        b: TokenToEncryptedValueMap<N>,
    ) -> Result<TokenToEncryptedValueMap<N>, DbErr> {
        self.run("upsert", b.len(), self.mem.upsert(a, b)).await
    }
    async fn insert(&self, v: TokenToEncryptedValueMap<N>) -> Result<(), DbErr> {
        self.run("insert", v.len(), self.mem.insert(v)).await
    }
    async fn delete(&self, t: Tokens) -> Result<(), DbErr> {
        self.run("delete", t.len(), self.mem.delete(t)).await
    }
}

pub type Fx = Findex<
    DbErr,
    EntryTable<ENTRY_LENGTH, Db<ENTRY_LENGTH>>,
    ChainTable<LINK_LENGTH, Db<LINK_LENGTH>>,
>;

#[derive(Default, Clone)]
pub struct Store {
    pub et: Rc<InMemoryDb<ENTRY_LENGTH>>,
    pub ct: Rc<InMemoryDb<LINK_LENGTH>>,
}

pub struct Client {
    pub fx: Fx,
    pub hook: Hook,
    pauses: Pauses,
}

/// (table, request, requests of this kind left before the pause, is it over).
type Pauses = Rc<RefCell<Vec<(String, String, usize, Rc<Cell<bool>>)>>>;

pub type Read = BTreeMap<Vec<u8>, BTreeSet<Vec<u8>>>;

pub fn key(x: u8) -> UserKey {
    use cosmian_crypto_core_like::*;
    user_key([x; 16])
}

mod cosmian_crypto_core_like {
    use super::*;
    /// A user key made of the given bytes.
    pub fn user_key(b: [u8; 16]) -> UserKey {
        use cosmian_crypto_core::FixedSizeCBytes;
        UserKey::try_from_bytes(b).unwrap()
    }
}

pub fn label(x: &str) -> Label {
    Label::from(x.as_bytes())
}
pub fn d(x: &str) -> IndexedValue<Keyword, Data> {
    IndexedValue::Data(Data::from(x.as_bytes()))
}
pub fn p(x: &str) -> IndexedValue<Keyword, Data> {
    IndexedValue::Pointer(Keyword::from(x.as_bytes()))
}
pub fn items(v: &[(IndexedValue<Keyword, Data>, &[&str])]) -> IndexedValueToKeywordsMap {
    let mut m: HashMap<_, HashSet<Keyword>> = HashMap::new();
    for (iv, kws) in v {
        m.entry(iv.clone()).or_default().extend(kws.iter().map(|k| Keyword::from(k.as_bytes())));
    }
    IndexedValueToKeywordsMap::from(m)
}
pub fn kws(v: &[&str]) -> Keywords {
    v.iter().map(|k| Keyword::from(k.as_bytes())).collect()
}
pub fn set(v: &[&str]) -> BTreeSet<Vec<u8>> {
    v.iter().map(|x| x.as_bytes().to_vec()).collect()
}

pub fn noop() -> Waker {
    const VT: RawWakerVTable =
        RawWakerVTable::new(|_| RawWaker::new(ptr::null(), &VT), |_| {}, |_| {}, |_| {});
    unsafe { Waker::from_raw(RawWaker::new(ptr::null(), &VT)) }
}

/// Runs to the end; `None` if the client crashed on its way.
pub fn run<T>(f: impl Future<Output = T>) -> Option<T> {
    let w = noop();
    let mut f = pin!(f);
    for _ in 0..1000 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return Some(x);
        }
    }
    None
}

type Res<T> = Result<T, String>;

impl Store {
    pub fn client(&self) -> Client {
        let hook = Hook::default();
        let pauses = Pauses::default();
        let et = Db { mem: self.et.clone(), table: "et", hook: hook.clone(), pauses: pauses.clone() };
        let ct = Db { mem: self.ct.clone(), table: "ct", hook: hook.clone(), pauses: pauses.clone() };
        Client { fx: Findex::new(EntryTable::setup(et), ChainTable::setup(ct)), hook, pauses }
    }
    pub fn rows(&self) -> (BTreeMap<Vec<u8>, Vec<u8>>, BTreeMap<Vec<u8>, Vec<u8>>) {
        fn f<const N: usize>(db: &InMemoryDb<N>) -> BTreeMap<Vec<u8>, Vec<u8>> {
            db.lock().unwrap().iter().map(|(k, v)| (k.to_vec(), v.into())).collect()
        }
        (f(&self.et), f(&self.ct))
    }
}

impl Client {
    pub fn on(&self, f: impl FnMut(&str, &str, usize) -> Act + 'static) {
        *self.hook.borrow_mut() = Some(Box::new(f));
    }
    /// Pauses the `n`th request of this kind until the returned cell is set.
    pub fn pause_before(&self, table: &str, kind: &str, n: usize) -> Rc<Cell<bool>> {
        let open = Rc::new(Cell::new(false));
        self.pauses.borrow_mut().push((table.into(), kind.into(), n, open.clone()));
        open
    }
    pub fn off(&self) {
        *self.hook.borrow_mut() = None;
    }
    fn names(k: Keywords) -> BTreeSet<Vec<u8>> {
        k.into_iter().map(|k| k.to_vec()).collect()
    }
    /// `None` if the client crashed, else the keywords reported as new.
    pub fn add(&self, k: &UserKey, l: &Label, v: &[(IndexedValue<Keyword, Data>, &[&str])]) -> Option<Res<BTreeSet<Vec<u8>>>> {
        run(self.fx.add(k, l, items(v))).map(|r| r.map(Self::names).map_err(|e| e.to_string()))
    }
    pub fn del(&self, k: &UserKey, l: &Label, v: &[(IndexedValue<Keyword, Data>, &[&str])]) -> Option<Res<BTreeSet<Vec<u8>>>> {
        run(self.fx.delete(k, l, items(v))).map(|r| r.map(Self::names).map_err(|e| e.to_string()))
    }
    pub fn search(&self, k: &UserKey, l: &Label, w: &[&str]) -> Res<Read> {
        let r = run(self.fx.search(k, l, kws(w), &|_| async { Ok(false) })).ok_or("crashed")?;
        r.map(|m| {
            m.into_iter()
                .map(|(k, s)| (k.to_vec(), s.into_iter().map(|x| x.to_vec()).collect()))
                .collect()
        })
        .map_err(|e| e.to_string())
    }
    /// The data of one keyword.
    pub fn get(&self, k: &UserKey, l: &Label, w: &str) -> BTreeSet<Vec<u8>> {
        self.search(k, l, &[w]).expect("search")[w.as_bytes()].clone()
    }
    pub fn compact(&self, k: (&UserKey, &UserKey), l: (&Label, &Label), rate: f64, drop: &[&str]) -> Option<Res<()>> {
        let drop: HashSet<Data> = drop.iter().map(|x| Data::from(x.as_bytes())).collect();
        run(self.fx.compact(k.0, k.1, l.0, l.1, rate, &|s: HashSet<Data>| {
            let r = s.into_iter().filter(|x| !drop.contains(x)).collect();
            async move { Ok(r) }
        }))
        .map(|r| r.map_err(|e| e.to_string()))
    }
}
