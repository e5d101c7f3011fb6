//! Clients: the real library (current tree, and vendored copy of the pinned release), plugged on
//! the simulated storage through its own `DbInterface` trait.

use std::rc::Rc;

use crate::types::{Peer, Table};
use crate::world::World;

#[derive(Debug)]
pub struct SimError(pub String);
impl std::fmt::Display for SimError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for SimError {}

macro_rules! client {
    ($module:ident, $krate:ident) => {
        pub mod $module {
            use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
            use std::rc::Rc;

            use async_trait::async_trait;
            use $krate::{
                ChainTable, Data, DbInterface, DbInterfaceErrorTrait, DxEnc, EncryptedValue,
                EntryTable, Error, Findex, Index, IndexedValue, IndexedValueToKeywordsMap, Keyword,
                Keywords, Label, Token, TokenToEncryptedValueMap, TokenWithEncryptedValueList,
                Tokens, UserKey, ENTRY_LENGTH, LINK_LENGTH,
            };

            use super::SimError;
            use crate::types::{
                Assoc, Bytes, FilterCb, InterruptCb, Items, Iv, LocalBox, OpErr, Peer, Reply, Req,
                Table, Tok,
            };
            use crate::world::World;

            impl DbInterfaceErrorTrait for SimError {}

            /// One table of the simulated storage, as seen by one client.
            pub struct SimDb {
                world: Rc<World>,
                table: Table,
            }

            impl std::fmt::Debug for SimDb {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    write!(f, "SimDb({:?})", self.table)
                }
            }

            fn tok(t: &Token) -> Tok {
                let mut r = [0; 32];
                r.copy_from_slice(t);
                r
            }

            fn toks(t: &Tokens) -> Vec<Tok> {
                let mut v: Vec<Tok> = t.iter().map(tok).collect();
                v.sort_unstable();
                v
            }

            fn rows<const N: usize>(m: &TokenToEncryptedValueMap<N>) -> Vec<(Tok, Bytes)> {
                let mut v: Vec<(Tok, Bytes)> = m.iter().map(|(t, v)| (tok(t), v.into())).collect();
                v.sort();
                v
            }

            fn parse<const N: usize>(
                rows: Vec<(Tok, Bytes)>,
            ) -> Result<Vec<(Token, EncryptedValue<N>)>, SimError> {
                rows.into_iter()
                    .map(|(t, v)| {
                        EncryptedValue::<N>::try_from(v.as_slice())
                            .map(|v| (Token::from(t), v))
                            .map_err(|e| SimError(format!("malformed value: {e}")))
                    })
                    .collect()
            }

            #[async_trait(?Send)]
            impl<const N: usize> DbInterface<N> for SimDb {
                type Error = SimError;

                async fn dump_tokens(&self) -> Result<Tokens, SimError> {
                    match self.world.call(self.table, Req::Dump).await {
                        Ok(Reply::Tokens(t)) => Ok(t.into_iter().map(Token::from).collect()),
                        Ok(_) => unreachable!(),
                        Err(e) => Err(SimError(e)),
                    }
                }

                async fn fetch(
                    &self,
                    tokens: Tokens,
                ) -> Result<TokenWithEncryptedValueList<N>, SimError> {
                    match self.world.call(self.table, Req::Fetch(toks(&tokens))).await {
                        Ok(Reply::Rows(r)) => Ok(TokenWithEncryptedValueList::from(parse::<N>(r)?)),
                        Ok(_) => unreachable!(),
                        Err(e) => Err(SimError(e)),
                    }
                }

                async fn upsert(
                    &self,
                    old_values: TokenToEncryptedValueMap<N>,
                    new_values: TokenToEncryptedValueMap<N>,
                ) -> Result<TokenToEncryptedValueMap<N>, SimError> {
                    let req = Req::Upsert(rows(&old_values), rows(&new_values));
                    match self.world.call(self.table, req).await {
                        Ok(Reply::Rows(r)) => Ok(TokenToEncryptedValueMap::from(
                            parse::<N>(r)?.into_iter().collect::<HashMap<_, _>>(),
                        )),
                        Ok(_) => unreachable!(),
                        Err(e) => Err(SimError(e)),
                    }
                }

                async fn insert(
                    &self,
                    values: TokenToEncryptedValueMap<N>,
                ) -> Result<(), SimError> {
                    self.world
                        .call(self.table, Req::Insert(rows(&values)))
                        .await
                        .map(|_| ())
                        .map_err(SimError)
                }

                async fn delete(&self, tokens: Tokens) -> Result<(), SimError> {
                    self.world
                        .call(self.table, Req::Delete(toks(&tokens)))
                        .await
                        .map(|_| ())
                        .map_err(SimError)
                }
            }

            pub fn op_err<E: std::error::Error>(e: Error<E>) -> OpErr {
                let (kind, msg) = match e {
                    Error::Crypto(m) => ("crypto", m),
                    Error::CryptoCore(m) => ("cryptocore", m.to_string()),
                    Error::Conversion(m) => ("conversion", m),
                    Error::DbInterface(m) => ("db", m.to_string()),
                    Error::Interrupt(m) => ("interrupt", m),
                    Error::Filter(m) => ("filter", m),
                };
                OpErr { kind, msg }
            }

            pub fn to_iv(v: &IndexedValue<Keyword, Data>) -> Iv {
                match v {
                    IndexedValue::Pointer(k) => Iv::P(k.to_vec()),
                    IndexedValue::Data(d) => Iv::D(d.to_vec()),
                }
            }

            /// Each conversion offered for byte strings, chosen by their contents.
            pub fn conv<'a, T>(b: &'a Bytes) -> T
            where
                T: From<Bytes> + From<&'a [u8]> + From<&'a str>,
            {
                match (crate::rng::hash_bytes(b) % 3, std::str::from_utf8(b)) {
                    (0, Ok(s)) => T::from(s),
                    (1, _) => T::from(b.as_slice()),
                    _ => T::from(b.clone()),
                }
            }

            pub fn to_keywords(kws: &[Bytes]) -> Keywords {
                let it = kws.iter().map(|k| conv::<Keyword>(k));
                match kws.iter().map(|k| crate::rng::hash_bytes(k)).fold(0u64, u64::wrapping_add) % 3 {
                    0 => Keywords::from(it.collect::<HashSet<_>>()),
                    1 => {
                        let mut res = Keywords::default();
                        for k in it {
                            res.insert(k);
                        }
                        res
                    }
                    _ => it.collect(),
                }
            }

            pub fn to_items(items: &Items) -> IndexedValueToKeywordsMap {
                let mut map = HashMap::new();
                for (iv, kws) in items {
                    let iv = match iv {
                        Iv::P(b) => IndexedValue::Pointer(conv::<Keyword>(b)),
                        Iv::D(b) => IndexedValue::Data(conv::<Data>(b)),
                    };
                    let e: &mut HashSet<Keyword> = map.entry(iv).or_default();
                    e.extend(kws.iter().map(|k| conv::<Keyword>(k)));
                }
                let way = items.iter().map(|(iv, _)| match iv {
                    Iv::P(b) | Iv::D(b) => crate::rng::hash_bytes(b),
                });
                let wrap = |(iv, kws)| (iv, Keywords::from(kws));
                match way.fold(0u64, u64::wrapping_add) % 5 {
                    0 => IndexedValueToKeywordsMap::from(map),
                    1 => map.into_iter().collect::<IndexedValueToKeywordsMap>(),
                    2 => map.into_iter().map(wrap).collect::<IndexedValueToKeywordsMap>(),
                    3 if map.len() == 2 => {
                        let mut it = map.into_iter().map(wrap);
                        IndexedValueToKeywordsMap::from([it.next().unwrap(), it.next().unwrap()])
                    }
                    _ => IndexedValueToKeywordsMap::from(
                        map.into_iter().map(wrap).collect::<HashMap<_, _>>(),
                    ),
                }
            }

            pub fn to_assoc(m: &HashMap<Keyword, HashSet<IndexedValue<Keyword, Data>>>) -> Assoc {
                m.iter()
                    .map(|(k, v)| (k.to_vec(), v.iter().map(to_iv).collect()))
                    .collect()
            }

            /// Operations on any index, independent of its storage.
            pub async fn do_search<DE, ET, CT>(
                fx: &Findex<DE, ET, CT>,
                key: [u8; 16],
                label: Bytes,
                kws: Vec<Bytes>,
                cb: InterruptCb,
            ) -> Result<BTreeMap<Bytes, BTreeSet<Bytes>>, OpErr>
            where
                DE: DbInterfaceErrorTrait,
                Findex<DE, ET, CT>: Index<ET, CT, Error = Error<DE>>,
                ET: DxEnc<ENTRY_LENGTH, Error = Error<DE>>,
                CT: DxEnc<LINK_LENGTH, Error = Error<DE>>,
            {
                let key = user_key(key);
                let label = conv::<Label>(&label);
                let kws = to_keywords(&kws);
                let f = |m: HashMap<Keyword, HashSet<IndexedValue<Keyword, Data>>>| {
                    let m = to_assoc(&m);
                    let cb = cb.clone();
                    async move { cb(m).await }
                };
                let res = fx.search(&key, &label, kws, &f).await.map_err(op_err)?;
                let res: HashMap<Keyword, HashSet<Data>> = res.into();
                Ok(res
                    .iter()
                    .map(|(k, v)| (k.to_vec(), v.iter().map(|d| d.to_vec()).collect()))
                    .collect())
            }

            pub async fn do_modify<DE, ET, CT>(
                fx: &Findex<DE, ET, CT>,
                add: bool,
                key: [u8; 16],
                label: Bytes,
                items: Items,
            ) -> Result<BTreeSet<Bytes>, OpErr>
            where
                DE: DbInterfaceErrorTrait,
                Findex<DE, ET, CT>: Index<ET, CT, Error = Error<DE>>,
                ET: DxEnc<ENTRY_LENGTH, Error = Error<DE>>,
                CT: DxEnc<LINK_LENGTH, Error = Error<DE>>,
            {
                let key = user_key(key);
                let label = conv::<Label>(&label);
                let items = to_items(&items);
                let res = if add {
                    fx.add(&key, &label, items).await
                } else {
                    fx.delete(&key, &label, items).await
                };
                Ok(res.map_err(op_err)?.into_iter().map(|k| k.to_vec()).collect())
            }

            #[allow(clippy::too_many_arguments)]
            pub async fn do_compact<DE, ET, CT>(
                fx: &Findex<DE, ET, CT>,
                old_key: [u8; 16],
                new_key: [u8; 16],
                old_label: Bytes,
                new_label: Bytes,
                rate: f64,
                filter: FilterCb,
            ) -> Result<(), OpErr>
            where
                DE: DbInterfaceErrorTrait,
                Findex<DE, ET, CT>: Index<ET, CT, Error = Error<DE>>,
                ET: DxEnc<ENTRY_LENGTH, Error = Error<DE>>,
                CT: DxEnc<LINK_LENGTH, Error = Error<DE>>,
            {
                let f = |data: HashSet<Data>| {
                    let data: BTreeSet<Bytes> = data.iter().map(|d| d.to_vec()).collect();
                    let filter = filter.clone();
                    async move { Ok(filter(data).await?.iter().map(|d| conv::<Data>(d)).collect()) }
                };
                fx.compact(
                    &user_key(old_key),
                    &user_key(new_key),
                    &conv::<Label>(&old_label),
                    &conv::<Label>(&new_label),
                    rate,
                    &f,
                )
                .await
                .map_err(op_err)
            }

            fn user_key(key: [u8; 16]) -> UserKey {
                use cosmian_crypto_core::FixedSizeCBytes;
                UserKey::try_from_slice(&key).expect("16 bytes")
            }

            type Fx = Findex<SimError, EntryTable<ENTRY_LENGTH, SimDb>, ChainTable<LINK_LENGTH, SimDb>>;

            pub struct Client {
                pub fx: Fx,
            }

            impl Client {
                pub fn new(world: Rc<World>) -> Self {
                    Self {
                        fx: Findex::new(
                            EntryTable::setup(SimDb { world: world.clone(), table: Table::Et }),
                            ChainTable::setup(SimDb { world, table: Table::Ct }),
                        ),
                    }
                }
            }

            impl Peer for Client {
                fn keygen(&self) -> Bytes {
                    self.fx.keygen().to_vec()
                }

                fn new_label(&self) -> Bytes {
                    use cosmian_crypto_core::reexport::rand_core::SeedableRng;
                    Label::random(&mut cosmian_crypto_core::CsRng::from_entropy()).to_vec()
                }

                fn search(
                    self: Rc<Self>,
                    key: [u8; 16],
                    label: Bytes,
                    kws: Vec<Bytes>,
                    cb: InterruptCb,
                ) -> LocalBox<Result<BTreeMap<Bytes, BTreeSet<Bytes>>, OpErr>> {
                    Box::pin(async move { do_search(&self.fx, key, label, kws, cb).await })
                }

                fn modify(
                    self: Rc<Self>,
                    add: bool,
                    key: [u8; 16],
                    label: Bytes,
                    items: Items,
                ) -> LocalBox<Result<BTreeSet<Bytes>, OpErr>> {
                    Box::pin(async move { do_modify(&self.fx, add, key, label, items).await })
                }

                fn compact(
                    self: Rc<Self>,
                    old_key: [u8; 16],
                    new_key: [u8; 16],
                    old_label: Bytes,
                    new_label: Bytes,
                    rate: f64,
                    filter: FilterCb,
                ) -> LocalBox<Result<(), OpErr>> {
                    Box::pin(async move {
                        do_compact(&self.fx, old_key, new_key, old_label, new_label, rate, filter).await
                    })
                }
            }
        }
    };
}

client!(cur, cosmian_findex);
client!(base, findex_base);

pub fn new_peer(base: bool, world: &Rc<World>) -> Rc<dyn Peer> {
    if base {
        Rc::new(base::Client::new(world.clone()))
    } else {
        Rc::new(cur::Client::new(world.clone()))
    }
}

#[allow(dead_code)]
pub const TABLES: [Table; 2] = [Table::Et, Table::Ct];
