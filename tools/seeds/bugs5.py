MM='src/findex_mm/mm.rs'; CP='src/findex_mm/compact.rs'; GR='src/findex_graph/graph.rs'; GS='src/findex_graph/structs.rs'; MS='src/findex_mm/structs.rs'; MO='src/findex_mm/mod.rs'
IX='src/index/mod.rs'; IS='src/index/structs.rs'; ED='src/edx/mod.rs'; ET='src/edx/entry_table.rs'; CT='src/edx/chain_table.rs'; ES='src/edx/structs.rs'; MA='src/macros.rs'; GM='src/findex_graph/mod.rs'
BUGS = {}
def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

CHAIN_FAIL = '''        let res = self.chain_table.insert(new_links).await;
        if res.is_err() {
            self.chain_table.delete(new_links_tokens).await?;
            return Err'''
OK_TAIL = '''        if res.is_ok() {
            self.chain_table.delete(old_links).await?;
'''
REVERT = '''            let inserted_entries = self
                .entry_table
                .get(new_entries.keys().copied().collect())
                .await?
                .into_iter()
                .filter(|(token, entry)| new_entries.get(token) == Some(entry))
                .map(|(token, _)| token)
                .collect();
            self.entry_table.delete(inserted_entries).await?;
'''

bug('revert-checked-before', 'F26', 'a keyword added under the new label between two requests of a compaction towards it',
 'A failed compaction removes the entries that were missing when it started, instead of the ones it inserted: an entry created under the new label meanwhile is removed too.',
 [(CP, '        let new_links_tokens = new_links.keys().copied().collect();\n', '''        let new_links_tokens: HashSet<Token> = new_links.keys().copied().collect();
        // Entries which are already there are not ours: they are kept upon failure.
        let mut inserted_entries = new_entries.keys().copied().collect::<HashSet<_>>();
        for (token, _) in self.entry_table.get(inserted_entries.clone()).await? {
            inserted_entries.remove(&token);
        }
'''), (CP, '        if res.is_ok() {\n            self.chain_table.delete(old_links).await?;\n            self.entry_table.delete(old_entries).await?;\n        } else {\n            self.chain_table.delete(new_links_tokens).await?;\n', '''        if res.is_ok() {
            self.chain_table.delete(old_links).await?;
            self.entry_table.delete(old_entries).await?;
        } else {
            self.chain_table.delete(new_links_tokens).await?;
'''), (CP, REVERT, '            self.entry_table.delete(inserted_entries).await?;\n'),
  (CP, 'let res = self.entry_table.insert(new_entries.clone())', 'let res = self.entry_table.insert(new_entries)')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let (l, m) = (label("l"), label("m"));
    let (a, b) = (s.client(), s.client());
    a.add(&k, &l, &[(d("x"), &["kw"])]).unwrap().unwrap();
    // Somebody starts using the new label just before the links (or the entries) are written.
    for (table, n) in [("ct", 1), ("et", 1)] {
        let s = Store { et: clone_of(&s.et), ct: clone_of(&s.ct) };
        let (a, b2) = (s.client(), s.client());
        let open = a.pause_before(table, "insert", n);
        let keep = |x: HashSet<Data>| async move { Ok(x) };
        let mut f = std::pin::pin!(a.fx.compact(&k, &k, &l, &m, 1.0, &keep));
        let w = noop();
        let mut cx = std::task::Context::from_waker(&w);
        assert!(f.as_mut().poll(&mut cx).is_pending());
        b2.add(&k, &m, &[(d("y"), &["kw"])]).unwrap().unwrap();
        open.set(true);
        assert!(f.as_mut().poll(&mut cx).is_ready());
        assert!(b2.get(&k, &m, "kw").contains(b"y".as_slice()), "lost");
    }
    drop(b);
}

fn clone_of<const N: usize>(x: &Rc<InMemoryDb<N>>) -> Rc<InMemoryDb<N>> {
    let mut y = InMemoryDb::default();
    y.load(x.lock().unwrap().clone());
    Rc::new(y)
}
''')

bug('collision-is-done', 'F26', 'keywords added under the new label while a compaction towards it runs',
 'When inserting the new entries fails although all of them are there, the compaction concludes that only the answer was lost, and removes the old index.',
 [(CP, '''        });

        if res.is_ok() {
            self.chain_table.delete(old_links).await?;
''', '''        });

        // The entries may have been written although an error was reported.
        let stored = match &res {
            Ok(()) => new_entries.len(),
            Err(_) => {
                self.entry_table
                    .get(new_entries.keys().copied().collect())
                    .await?
                    .len()
            }
        };

        let is_done = res.is_ok() || (stored > 0 && stored == new_entries.len());
        if is_done {
            self.chain_table.delete(old_links).await?;
''')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let (l, m) = (label("l"), label("m"));
    let (a, b) = (s.client(), s.client());
    a.add(&k, &l, &[(d("x"), &["kw"])]).unwrap().unwrap();
    let open = a.pause_before("et", "insert", 1);
    let keep = |x: HashSet<Data>| async move { Ok(x) };
    let mut f = std::pin::pin!(a.fx.compact(&k, &k, &l, &m, 1.0, &keep));
    let w = noop();
    let mut cx = std::task::Context::from_waker(&w);
    assert!(f.as_mut().poll(&mut cx).is_pending());
    b.add(&k, &m, &[(d("y"), &["kw"])]).unwrap().unwrap();
    open.set(true);
    assert!(f.as_mut().poll(&mut cx).is_ready());
    assert!(b.get(&k, &m, "kw").contains(b"y".as_slice()), "new lost");
    let mut all = b.get(&k, &m, "kw");
    all.extend(b.get(&k, &l, "kw"));
    assert!(all.contains(b"x".as_slice()), "old lost");
}
''')

bug('stale-copy-overwrites', 'F12', 'a partial compaction (label change) stopped after inserting its entries, a change under the new label, and the compaction again',
 'A repeated compaction overwrites the copies an interrupted one left, even when they were changed meanwhile: the changes are lost.',
 [(CP, '''        });

        if res.is_ok() {
            self.chain_table.delete(old_links).await?;
''', '''        });

        // Copies left by an interrupted operation are taken over.
        let res = match res {
            Ok(()) => Ok(()),
            Err(e) => {
                let stored = self
                    .entry_table
                    .get(new_entries.keys().copied().collect())
                    .await?;
                let mut copies = HashMap::with_capacity(stored.len());
                for (token, value) in stored {
                    let theirs =
                        Entry::<ChainTable>::from(self.entry_table.resolve(new_key, &value)?);
                    let ours = Entry::<ChainTable>::from(
                        self.entry_table.resolve(new_key, &new_entries[&token])?,
                    );
                    if theirs.seed.as_ref() == ours.seed.as_ref() {
                        copies.insert(token, value);
                    }
                }
                if copies.len() == new_entries.len() {
                    let rejected = self
                        .entry_table
                        .upsert(copies, new_entries.clone())
                        .await?;
                    if rejected.is_empty() {
                        self.entry_table.delete(old_entries).await?;
                        return Ok(());
                    }
                }
                Err(e)
            }
        };

        if res.is_ok() {
            self.chain_table.delete(old_links).await?;
''')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let (l, m) = (label("l"), label("m"));
    let a = s.client();
    a.add(&k, &l, &[(d("x"), &["kw"])]).unwrap().unwrap();
    // Nothing is compacted: the entry is copied. The client is gone before the old entry is deleted.
    let c = s.client();
    c.on(|t, r, _| if (t, r) == ("ct", "delete") { Act::Crash } else { Act::Ok });
    assert!(c.compact((&k, &k), (&l, &m), 0.0, &[]).is_none());
    assert_eq!(a.get(&k, &m, "kw"), set(&["x"]));
    a.add(&k, &m, &[(d("y"), &["kw"])]).unwrap().unwrap();
    assert_eq!(a.get(&k, &m, "kw"), set(&["x", "y"]));
    let _ = a.compact((&k, &k), (&l, &m), 0.0, &[]);
    assert_eq!(a.get(&k, &m, "kw"), set(&["x", "y"]));
}
''')

bug('chain-key-cached', 'F04', 'two clients creating the same keyword at once, in an operation on several keywords',
 'The chain keys are computed from the entries as first read: when another client creates the keyword first, the links are written with the key of an entry that was never stored.',
 [(MM, '''        while !chain_additions.is_empty() {
            let mut new_entries''', '''        // Seeds never change while a keyword is indexed.
        let n_tags = chain_additions.len();
        let mut seeds = HashMap::<Token, Vec<u8>>::with_capacity(chain_additions.len());

        while !chain_additions.is_empty() {
            let mut new_entries'''),
  (MM, '''                // TODO: a cache could be added to prevent computing the key at each loop
                // iteration.
                let chain_key = self.chain_table.derive_keys(&entry.seed);
''', '''                let mut seed = ChainTable::Seed::default();
                seed.as_mut().copy_from_slice(entry.seed.as_ref());
                if n_tags > 1 {
                    let first = seeds
                        .entry(*token)
                        .or_insert_with(|| entry.seed.as_ref().to_vec());
                    seed.as_mut().copy_from_slice(first);
                }
                let chain_key = self.chain_table.derive_keys(&seed);
''')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let l = label("l");
    let (a, b) = (s.client(), s.client());
    let open = a.pause_before("et", "upsert", 1);
    let v = [(d("x"), &["kw", "other"][..])];
    let mut f = std::pin::pin!(a.fx.add(&k, &l, items(&v)));
    let w = noop();
    let mut cx = std::task::Context::from_waker(&w);
    assert!(f.as_mut().poll(&mut cx).is_pending());
    b.add(&k, &l, &[(d("y"), &["kw"])]).unwrap().unwrap();
    open.set(true);
    match f.as_mut().poll(&mut cx) {
        std::task::Poll::Ready(r) => r.map(|_| ()).unwrap(),
        _ => panic!("pending"),
    }
    assert_eq!(b.get(&k, &l, "kw"), set(&["x", "y"]));
}
''')

bug('delete-stops-at-missing', 'F21', 'a deletion of several tokens some of which are not stored',
 'Deletion from the in-memory store stops at the first token it does not hold.',
 [(ED, '''            for token in &*items {
                edx.remove(token);
            }
            Ok(())
''', '''            let _ = items.iter().try_for_each(|token| edx.remove(token).map(|_| ()));
            Ok(())
''')],
 '''
fn t(x: u8) -> Token {
    Token::try_from([x; Token::LENGTH].as_slice()).unwrap()
}
fn main() {
    let s = Store::default();
    let a = s.client();
    let k = key(1);
    a.add(&k, &label("l"), &[(d("x"), &["a", "b", "c", "d", "e"])]).unwrap().unwrap();
    let mut all: HashSet<Token> = run(s.et.dump_tokens()).unwrap().unwrap().into();
    for i in 0..20 {
        all.insert(t(i));
    }
    run(s.et.delete(Tokens::from(all))).unwrap().unwrap();
    assert!(s.et.is_empty());
}
''')

bug('unknown-deletion-skipped', 'F19', 'deleting something from keywords none of which is indexed',
 'Deleting from unknown keywords only writes nothing, which an addition would: the server can tell them apart.',
 [(MM, '''            .collect::<Result<HashMap<Tag, Vec<Link>>, _>>()?;

        let (new_tags, mut chain_tokens) = self
''', '''            .collect::<Result<HashMap<Tag, Vec<Link>>, _>>()?;

        // Nothing can be deleted from keywords that are not indexed.
        if chain_additions.len() > 1
            && chain_additions.values().flatten().all(|link| link.0[0] == 0)
            && self
                .fetch_entries_by_tag(key, chain_additions.keys().cloned().collect(), label)
                .await?
                .is_empty()
        {
            return Ok(HashSet::new());
        }

        let (new_tags, mut chain_tokens) = self
''')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let l = label("l");
    let a = s.client();
    a.del(&k, &l, &[(d("x"), &["a", "b"])]).unwrap().unwrap();
    assert_eq!((s.et.len(), s.ct.len()), (2, 2));
}
''')

bug('nonce-of-value', 'F16', 'a partial compaction that changes the label only',
 'The nonce is derived from what is encrypted: an entry copied by a compaction keeps its ciphertext, which links the new index to the old one.',
 [(ES, '''        rng.fill_bytes(&mut res.nonce.0);
        let aead = Aes256Gcm::new(key);
''', '''        // Synthetic nonce: cannot be reused for another value, however weak the source of
        // randomness is.
        rng.fill_bytes(&mut res.nonce.0);
        cosmian_crypto_core::kdf256!(&mut res.nonce.0, key, &value);
        let aead = Aes256Gcm::new(key);
''')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let (l, m) = (label("l"), label("m"));
    let a = s.client();
    a.add(&k, &l, &[(d("x"), &["kw"])]).unwrap().unwrap();
    let before: Vec<_> = s.rows().0.into_values().collect();
    a.compact((&k, &k), (&l, &m), 0.0, &[]).unwrap().unwrap();
    let after: Vec<_> = s.rows().0.into_values().collect();
    assert_ne!(before, after);
}
''')

bug('long-keyword-hashed', 'F23', 'a keyword of more than 136 bytes and a client of the pinned release',
 'Long keywords are hashed twice: the other release does not find them.',
 [(MM, '''    ) -> Result<Vec<(Tag, Entry<ChainTable>)>, Error<UserError>> {
        let tokens = tags
            .into_iter()
            .map(|tag| {
                let mut tag_hash = [0; HASH_LENGTH];
                let mut hasher = Sha3::v256();
                hasher.update(tag.as_ref());
                hasher.finalize(&mut tag_hash);
''', '''    ) -> Result<Vec<(Tag, Entry<ChainTable>)>, Error<UserError>> {
        let tokens = tags
            .into_iter()
            .map(|tag| {
                let tag_hash = hash_tag(tag.as_ref());
'''), (MM, '''            .map(|(tag, links)| {
                let mut tag_hash = [0; HASH_LENGTH];
                let mut hasher = Sha3::v256();
                hasher.update(tag.as_ref());
                hasher.finalize(&mut tag_hash);
''', '''            .map(|(tag, links)| {
                let tag_hash = hash_tag(tag.as_ref());
'''), (MM, '''impl<
        UserError: DbInterfaceErrorTrait,
        EntryTable: DxEnc<ENTRY_LENGTH, Error = Error<UserError>>,
        ChainTable: DxEnc<LINK_LENGTH, Error = Error<UserError>>,
    > FindexMultiMap<UserError, EntryTable, ChainTable>
{
    /// Instantiates''', '''/// Hashes the given tag, block by block: each block is chained with the hash of the previous ones.
fn hash_tag(tag: &[u8]) -> [u8; HASH_LENGTH] {
    let mut tag_hash = [0; HASH_LENGTH];
    for (i, block) in tag.chunks(136).enumerate() {
        let mut hasher = Sha3::v256();
        if i > 0 {
            hasher.update(&tag_hash);
        }
        hasher.update(block);
        hasher.finalize(&mut tag_hash);
    }
    tag_hash
}

impl<
        UserError: DbInterfaceErrorTrait,
        EntryTable: DxEnc<ENTRY_LENGTH, Error = Error<UserError>>,
        ChainTable: DxEnc<LINK_LENGTH, Error = Error<UserError>>,
    > FindexMultiMap<UserError, EntryTable, ChainTable>
{
    /// Instantiates''')],
 '''
/// The token of this keyword as the pinned release computes it.
fn main() {
    use cosmian_findex::DxEnc;
    let s = Store::default();
    let k = key(1);
    let l = label("l");
    let a = s.client();
    let long = "k".repeat(200);
    a.add(&k, &l, &[(d("x"), &[long.as_str()])]).unwrap().unwrap();
    let stored: HashSet<Token> = run(s.et.dump_tokens()).unwrap().unwrap().into();
    let t = EntryTable::setup(InMemoryDb::<ENTRY_LENGTH>::default());
    let mut seed = <EntryTable<ENTRY_LENGTH, InMemoryDb<ENTRY_LENGTH>> as DxEnc<ENTRY_LENGTH>>::Seed::default();
    seed.as_mut().copy_from_slice(&k);
    let kk = t.derive_keys(&seed);
    // SHA3-256 of the keyword.
    let h: [u8; 32] = [156,180,235,10,30,136,254,24,47,8,192,76,86,12,47,33,111,17,50,141,117,52,181,220,52,93,148,86,69,7,161,228];
    assert_eq!(stored, HashSet::from([t.tokenize(&kk, &h, Some(&l))]));
}
''')

bug('insert-retry-swallowed', 'F10', 'a storage that refuses the insertion of the links twice',
 'A refused insertion of links is tried again, and the error of the second try is taken for an answer that was lost: the operation succeeds although nothing was written.',
 [(MM, '''        self.chain_table.insert(encrypted_links).await?;

        Ok(new_tags)
''', '''        if self.chain_table.insert(encrypted_links.clone()).await.is_err() {
            // The storage may be busy: try again. This fails if only the answer was lost, since
            // the links are already stored then.
            let _ = self.chain_table.insert(encrypted_links).await;
        }

        Ok(new_tags)
''')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let l = label("l");
    let a = s.client();
    let mut n = 0;
    a.on(move |t, r, _| {
        if (t, r) == ("ct", "insert") {
            n += 1;
            if n <= 2 {
                return Act::Refuse;
            }
        }
        Act::Ok
    });
    let r = a.add(&k, &l, &[(d("x"), &["kw"])]).unwrap();
    assert!(r.is_err() || a.get(&k, &l, "kw") == set(&["x"]));
}
''')

bug('late-upsert-error-ignored', 'F10', 'an operation on several keywords that loses a race for some of them, and whose second try is refused',
 'A storage error met once some keywords are committed is not reported: the operation succeeds without the others.',
 [(MM, '''            encrypted_entries = self
                .entry_table
                .upsert(encrypted_entries, new_entries)
                .await?;
            chain_additions.retain''', '''            let n_entries = new_entries.len();
            encrypted_entries = match self
                .entry_table
                .upsert(encrypted_entries, new_entries)
                .await
            {
                Ok(rejected) => rejected,
                // The keywords committed so far need their links.
                Err(_) if n_entries < chain.len() => break,
                Err(e) => return Err(e),
            };
            chain_additions.retain''')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let l = label("l");
    let (a, b) = (s.client(), s.client());
    let open = a.pause_before("et", "upsert", 1);
    let mut n = 0;
    a.on(move |t, r, _| {
        if (t, r) == ("et", "upsert") {
            n += 1;
            if n == 2 {
                return Act::Refuse;
            }
        }
        Act::Ok
    });
    let v = [(d("x"), &["a", "b"][..])];
    let mut f = std::pin::pin!(a.fx.add(&k, &l, items(&v)));
    let w = noop();
    let mut cx = std::task::Context::from_waker(&w);
    assert!(f.as_mut().poll(&mut cx).is_pending());
    b.add(&k, &l, &[(d("y"), &["a"])]).unwrap().unwrap();
    open.set(true);
    let r = match f.as_mut().poll(&mut cx) {
        std::task::Poll::Ready(r) => r,
        _ => panic!("pending"),
    };
    if r.is_ok() {
        assert_eq!(b.get(&k, &l, "a"), set(&["x", "y"]));
    }
}
''')

bug('foreign-batch-refused', 'F17', 'a compaction of one label when no entry of the batch is filed under it',
 'A batch that holds entries of other labels only is refused as a wrong label, although there simply is nothing to do for it.',
 [(CP, '''        let n_entries = entries.len();
        let entries = entries.into_iter().try_fold(
            HashMap::with_capacity(n_entries),
''', '''        let n_entries = entries.len();
        if n_entries == 0 && n_fetched > 0 {
            return Err(Error::Crypto(format!("no entry is indexed under {label}")));
        }
        let entries = entries.into_iter().try_fold(
            HashMap::with_capacity(n_entries),
'''), (CP, '''        let mut entries = self.fetch_entries(key, tokens).await?;
''', '''        let mut entries = self.fetch_entries(key, tokens).await?;
        let n_fetched = entries.len();
''')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let (l, m, n) = (label("l"), label("m"), label("n"));
    let a = s.client();
    a.add(&k, &n, &[(d("x"), &["kw"])]).unwrap().unwrap();
    a.compact((&k, &k), (&l, &m), 1.0, &[]).unwrap().unwrap();
    assert_eq!(a.get(&k, &n, "kw"), set(&["x"]));
}
''')
