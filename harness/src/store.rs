//! Storage servers: the reference model of the documented contract, or the bundled store.

use std::collections::BTreeMap;
use std::future::Future;
use std::pin::pin;
use std::task::{Context, Poll, Waker};

use cosmian_crypto_core::bytes_ser_de::Serializable;
use cosmian_findex::{
    DbInterface, EncryptedValue, InMemoryDb, Token, TokenToEncryptedValueMap, Tokens, ENTRY_LENGTH,
    LINK_LENGTH,
};

use crate::rng::Rng;
use crate::types::*;
use crate::world::{Rot, Stats};

pub enum Store {
    Ref([Dump; 2]),
    Mem(InMemoryDb<ENTRY_LENGTH>, InMemoryDb<LINK_LENGTH>),
}

/// Polls a future that is never pending.
pub fn now<F: Future>(f: F) -> Result<F::Output, String> {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    match f.as_mut().poll(&mut cx) {
        Poll::Ready(x) => Ok(x),
        Poll::Pending => Err("bundled store is pending".into()),
    }
}

pub fn tok(t: &Token) -> Tok {
    let mut r = [0; 32];
    r.copy_from_slice(t);
    r
}

pub fn map_of<const N: usize>(v: &[(Tok, Bytes)]) -> TokenToEncryptedValueMap<N> {
    v.iter()
        .map(|(t, v)| {
            (
                Token::from(*t),
                EncryptedValue::<N>::try_from(v.as_slice()).expect("value of the right size"),
            )
        })
        .collect()
}

pub fn tokens_of(v: &[Tok]) -> Tokens {
    v.iter().map(|t| Token::from(*t)).collect()
}

pub fn mem_apply<const N: usize>(db: &InMemoryDb<N>, req: &Req) -> Result<Reply, String> {
    let rows = |v: Vec<(Token, EncryptedValue<N>)>| -> Reply {
        Reply::Rows(v.iter().map(|(t, v)| (tok(t), Bytes::from(v))).collect())
    };
    let e = |e: cosmian_findex::InMemoryDbError| e.to_string();
    match req {
        Req::Dump => now(db.dump_tokens())?.map_err(e).map(|t| {
            let mut t: Vec<Tok> = t.iter().map(tok).collect();
            t.sort_unstable();
            Reply::Tokens(t)
        }),
        Req::Fetch(t) => now(db.fetch(tokens_of(t)))?.map_err(e).map(|l| rows(l.0)),
        Req::Upsert(o, n) => now(db.upsert(map_of(o), map_of(n)))?.map_err(e).map(|m| {
            let mut v: Vec<_> = m.0.into_iter().collect();
            v.sort_by_key(|x| tok(&x.0));
            rows(v)
        }),
        Req::Insert(v) => now(db.insert(map_of(v)))?.map_err(e).map(|()| Reply::Unit),
        Req::Delete(t) => now(db.delete(tokens_of(t)))?.map_err(e).map(|()| Reply::Unit),
    }
}

pub fn mem_dump<const N: usize>(db: &InMemoryDb<N>) -> Dump {
    db.lock().unwrap().iter().map(|(t, v)| (tok(t), Bytes::from(v))).collect()
}

/// The contract documented on `DbInterface`.
pub fn contract(t: &mut Dump, req: Req) -> Result<Reply, String> {
    match req {
        Req::Dump => Ok(Reply::Tokens(t.keys().copied().collect())),
        Req::Fetch(q) => Ok(Reply::Rows(
            q.into_iter().filter_map(|k| t.get(&k).map(|v| (k, v.clone()))).collect(),
        )),
        Req::Upsert(old, new) => {
            let old: BTreeMap<Tok, Bytes> = old.into_iter().collect();
            if old.keys().any(|k| !t.contains_key(k)) {
                return Err("missing tokens".into());
            }
            let mut rejected = vec![];
            for (k, v) in new {
                if old.get(&k) == t.get(&k) {
                    t.insert(k, v);
                } else {
                    rejected.push((k, t[&k].clone()));
                }
            }
            Ok(Reply::Rows(rejected))
        }
        Req::Insert(v) => {
            if v.iter().any(|(k, _)| t.contains_key(k)) {
                return Err("used tokens".into());
            }
            t.extend(v);
            Ok(Reply::Unit)
        }
        Req::Delete(q) => {
            for k in q {
                t.remove(&k);
            }
            Ok(Reply::Unit)
        }
    }
}

/// Alters an encrypted value: flips a bit, overwrites or blanks bytes, truncates or extends.
pub fn corrupt(v: &mut Bytes, sel: u64) {
    let mut r = Rng::new(sel);
    let before = v.clone();
    match r.below(10) {
        0 => {
            let n = r.below(v.len());
            v.truncate(n);
        }
        1 => v.push(r.next() as u8),
        2 => {
            for b in v.iter_mut() {
                *b = 0;
            }
        }
        3 => {
            // The end of the value comes from somewhere else.
            let n = v.len() - r.range(1, 16);
            for b in &mut v[n..] {
                *b ^= 0x5a;
            }
        }
        4 | 5 => {
            // A part is blank: nonce, tag or anything.
            let n = v.len();
            let (a, b) = match r.below(4) {
                0 => (0, 12),
                1 => (n - 16, n),
                2 => (12, n),
                _ => {
                    let a = r.below(n);
                    (a, r.range(a, n - 1) + 1)
                }
            };
            v[a..b].fill(*r.pick(&[0, 0, 0xff]));
        }
        _ => {}
    }
    if *v == before {
        let i = r.below(v.len());
        v[i] ^= 1 << r.below(8);
    }
}

impl Store {
    pub fn new(mem: bool) -> Self {
        if mem {
            Store::Mem(InMemoryDb::default(), InMemoryDb::default())
        } else {
            Store::Ref([Dump::new(), Dump::new()])
        }
    }

    pub fn apply(&mut self, table: Table, req: Req, stats: &mut Stats) -> Result<Reply, String> {
        let kind = req.kind();
        let res = match self {
            Store::Ref(t) => contract(&mut t[table.idx()], req),
            Store::Mem(et, ct) => match table {
                Table::Et => mem_apply(et, &req),
                Table::Ct => mem_apply(ct, &req),
            },
        };
        match (&res, kind) {
            (Ok(Reply::Rows(r)), "upsert") if !r.is_empty() => stats.hit("upsert_rejected"),
            (Err(_), "upsert") => stats.hit("upsert_refused"),
            (Err(_), "insert") => stats.hit("insert_collision"),
            _ => {}
        }
        res
    }

    pub fn dump(&self, table: Table) -> Dump {
        match self {
            Store::Ref(t) => t[table.idx()].clone(),
            Store::Mem(et, ct) => match table {
                Table::Et => mem_dump(et),
                Table::Ct => mem_dump(ct),
            },
        }
    }

    pub fn get(&self, table: Table, t: &Tok) -> Option<Bytes> {
        match self {
            Store::Ref(m) => m[table.idx()].get(t).cloned(),
            Store::Mem(et, ct) => match table {
                Table::Et => et.lock().unwrap().get(&Token::from(*t)).map(Bytes::from),
                Table::Ct => ct.lock().unwrap().get(&Token::from(*t)).map(Bytes::from),
            },
        }
    }

    pub fn put(&mut self, table: Table, t: Tok, v: &Bytes) {
        match self {
            Store::Ref(m) => {
                m[table.idx()].insert(t, v.clone());
            }
            Store::Mem(et, ct) => match table {
                Table::Et => {
                    let v = EncryptedValue::try_from(v.as_slice()).expect("size");
                    et.lock().unwrap().insert(Token::from(t), v);
                }
                Table::Ct => {
                    let v = EncryptedValue::try_from(v.as_slice()).expect("size");
                    ct.lock().unwrap().insert(Token::from(t), v);
                }
            },
        }
    }

    /// Alters one stored value.
    pub fn rot(&mut self, table: Table, sel: u64) -> Option<Rot> {
        let d = self.dump(table);
        if d.is_empty() {
            return None;
        }
        let mut r = Rng::new(sel);
        let i = r.below(d.len());
        let (t, good) = d.into_iter().nth(i).unwrap();
        let mut bad = good.clone();
        if r.pct(15) {
            for b in &mut bad {
                *b = 0;
            }
        } else {
            let k = r.below(bad.len());
            bad[k] ^= 1 << r.below(8);
        }
        self.put(table, t, &bad);
        Some(Rot { table, token: t, good, bad })
    }

    /// Saves the tables and continues on what is read back.
    pub fn snapshot(&mut self) -> Result<(), String> {
        if let Store::Mem(et, ct) = self {
            fn go<const N: usize>(db: &mut InMemoryDb<N>) -> Result<(), String> {
                let before = mem_dump(db);
                let announced = db.length();
                let bytes = db.serialize().map_err(|e| format!("cannot serialize: {e}"))?;
                if bytes.len() != announced {
                    return Err(format!("announced length {announced}, {} written", bytes.len()));
                }
                let back = InMemoryDb::<N>::deserialize(&bytes)
                    .map_err(|e| format!("cannot read back: {e}"))?;
                if mem_dump(&back) != before {
                    return Err("restored rows differ".into());
                }
                *db = back;
                Ok(())
            }
            go(et).map_err(|e| format!("entry table: {e}"))?;
            go(ct).map_err(|e| format!("chain table: {e}"))?;
        }
        Ok(())
    }
}
