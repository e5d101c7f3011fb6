MM='src/findex_mm/mm.rs'; CP='src/findex_mm/compact.rs'; GR='src/findex_graph/graph.rs'; GS='src/findex_graph/structs.rs'; MS='src/findex_mm/structs.rs'; MO='src/findex_mm/mod.rs'
IX='src/index/mod.rs'; IS='src/index/structs.rs'; ED='src/edx/mod.rs'; ET='src/edx/entry_table.rs'; CT='src/edx/chain_table.rs'; ES='src/edx/structs.rs'; MA='src/macros.rs'; GM='src/findex_graph/mod.rs'
BUGS = {}
def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug('namesake-pointer-filtered', 'F11', 'a compaction whose filter refuses a data, and a pointer to a keyword with the same bytes',
 'What the filter refuses is compared by its bytes only: pointers to a keyword that is spelled like a refused data are dropped.',
 [(IX, '''        let indexed_data = indexed_values
            .values()
            .flatten()
            .filter_map(IndexedValue::get_data)
            .cloned()
            .collect();

        let remaining_data = data_filter(indexed_data)
            .await
            .map_err(<Self as Index<EntryTable, ChainTable>>::Error::Filter)?;
''', '''        let indexed_data = indexed_values
            .values()
            .flatten()
            .filter_map(IndexedValue::get_data)
            .cloned()
            .collect::<HashSet<Data>>();

        let remaining_data = data_filter(indexed_data.clone())
            .await
            .map_err(<Self as Index<EntryTable, ChainTable>>::Error::Filter)?;

        let obsolete = indexed_data
            .difference(&remaining_data)
            .map(|data| data.as_ref().to_vec())
            .collect::<HashSet<Vec<u8>>>();
'''), (IX, '''                        value
                            .get_data()
                            .map_or(true, |data| remaining_data.contains(data))
''', '''                        let bytes: &[u8] = match value {
                            IndexedValue::Pointer(keyword) => keyword.as_ref(),
                            IndexedValue::Data(data) => data.as_ref(),
                        };
                        !obsolete.contains(bytes)
''')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let a = s.client();
    a.add(&k, &label("l"), &[(d("b"), &["a"]), (p("b"), &["a"]), (d("x"), &["b"])]).unwrap().unwrap();
    a.compact((&k, &k), (&label("l"), &label("m")), 1.0, &["b"]).unwrap().unwrap();
    assert_eq!(a.get(&k, &label("m"), "a"), set(&["x"]));
}
''')

bug('wide-rounds', 'F07', 'a search round with more than 512 pointers to follow',
 'The number of keywords queried at once is bounded: the pointers in excess are not followed.',
 [(GR, '''            if is_interrupted {
                tags = HashSet::new();
            }
''', '''            if is_interrupted {
                tags = HashSet::new();
            } else if tags.len() > 512 {
                // Do not send requests that are too big.
                tags = tags.into_iter().take(512).collect();
            }
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    let names = (0..600).map(|i| format!("k{i}")).collect::<Vec<_>>();
    let own = names.iter().map(|x| [x.as_str()]).collect::<Vec<_>>();
    let mut v = names.iter().map(|x| (p(x), &["root"] as &[&str])).collect::<Vec<_>>();
    v.extend(names.iter().zip(&own).map(|(x, o)| (d(x), o as &[&str])));
    a.add(&k, &l, &v).unwrap().unwrap();
    assert_eq!(a.get(&k, &l, "root").len(), 600);
}
''')

bug('failed-insert-reverts-entry', 'F05', 'an addition to an existing keyword whose lines are stored although the reply of the chain table is lost',
 'When the insertion of the lines fails, the entries are restored to their previous value: if the lines were in fact stored, the next modification wants to write them again and is always refused.',
 [(MM, '''    ) -> Result<(HashSet<Tag>, HashMap<Tag, (ChainTable::Key, Vec<Token>)>), Error<UserError>> {
''', '''    ) -> Result<
        (
            HashSet<Tag>,
            HashMap<Tag, (ChainTable::Key, Vec<Token>)>,
            HashMap<Token, (EntryTable::EncryptedValue, EntryTable::EncryptedValue)>,
        ),
        Error<UserError>,
    > {
'''), (MM, '''        let mut chain = HashMap::with_capacity(chain_additions.len());

        while''', '''        let mut chain = HashMap::with_capacity(chain_additions.len());
        let mut updated = HashMap::new();

        while'''), (MM, '''            // 2 - Upsert new entries to the Entry Table.
''', '''            for (token, new) in &new_entries {
                if let Some(old) = encrypted_entries.get(token) {
                    updated.insert(*token, (new.clone(), old.clone()));
                }
            }

            // 2 - Upsert new entries to the Entry Table.
'''), (MM, '        Ok((new_tags, chain))\n', '        Ok((new_tags, chain, updated))\n'),
 (MM, '        let (new_tags, mut chain_tokens) = self\n', '        let (new_tags, mut chain_tokens, updated) = self\n'),
 (MM, '''        self.chain_table.insert(encrypted_links).await?;
''', '''        if let Err(e) = self.chain_table.insert(encrypted_links).await {
            // Restore the entries.
            let mut old = HashMap::new();
            let mut new = HashMap::new();
            for (token, (written, previous)) in updated {
                old.insert(token, written);
                new.insert(token, previous);
            }
            self.entry_table.upsert(old, new).await?;
            return Err(e);
        }
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let (a, b) = (s.client(), s.client());
    a.add(&k, &l, &[(d("x"), &["kw"])]).unwrap().unwrap();
    b.on(|t, r, _| if (t, r) == ("ct", "insert") { Act::LoseReply } else { Act::Ok });
    assert!(b.add(&k, &l, &[(d("y"), &["kw"])]).unwrap().is_err());
    a.add(&k, &l, &[(d("z"), &["kw"])]).unwrap().unwrap();
    assert!(a.get(&k, &l, "kw").is_superset(&set(&["x", "z"])));
}
''')

bug('op-on-last-block', 'F23', 'a value of several blocks written by this version and read by the pinned one',
 'The operation is only written for the terminating block of a value: the pinned release refuses the additions of long values made by this version.',
 [(MM, '''                link.set_operation(pos, *operation)?;
                link.set_block(pos, &value[i * BLOCK_LENGTH..(i + 1) * BLOCK_LENGTH], false)?;
''', '''                link.set_block(pos, &value[i * BLOCK_LENGTH..(i + 1) * BLOCK_LENGTH], false)?;
'''), (MM, '''                if current_operation.is_some() && current_operation.as_ref() != Some(&operation) {
                    return Err(CoreError::Crypto(
                        "findex value cannot be decomposed into blocks with different operations"
                            .to_string(),
                    ));
                }

''', ''), (MM, '''                    current_operation = None;
                    stack = Vec::new();
                } else {
                    stack.push(data);
                    if current_operation.is_none() {
                        current_operation = Some(operation);
                    }
                }
''', '''                    stack = Vec::new();
                } else {
                    stack.push(data);
                }
'''), (MM, '        let mut current_operation = None;\n', '')],
 '''
fn main() {
    // The bits of the operation byte, as the pinned release reads them: two blocks of one addition.
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    let v = "0123456789abcdefghij";
    a.add(&k, &l, &[(d(v), &["kw"])]).unwrap().unwrap();
    let fx = &a.fx;
    let mm = &fx.findex_graph.findex_mm;
    let et = &mm.entry_table;
    let ct = &mm.chain_table;
    let mut seed = <EntryTable<ENTRY_LENGTH, Db<ENTRY_LENGTH>> as DxEnc<ENTRY_LENGTH>>::Seed::default();
    seed.as_mut().copy_from_slice(&k);
    let kk = et.derive_keys(&seed);
    let e = s.et.lock().unwrap().values().next().unwrap().clone();
    let e = et.resolve(&kk, &e).unwrap();
    let mut cs = <ChainTable<LINK_LENGTH, Db<LINK_LENGTH>> as DxEnc<LINK_LENGTH>>::Seed::default();
    let n = cs.as_ref().len();
    cs.as_mut().copy_from_slice(&e[32..32 + n]);
    let ck = ct.derive_keys(&cs);
    let line = s.ct.lock().unwrap().values().next().unwrap().clone();
    let line = ct.resolve(&ck, &line).unwrap();
    assert_eq!(line[0], 0b11);
}
''')

bug('rotation-prefix', 'F09', 'the rotation of a key to a key that starts with the same eight bytes',
 'The old and new keys are compared on their first bytes only: a legitimate key rotation is refused.',
 [(IX, '        if (old_key == new_key) && (old_label == new_label) {\n',
   '        if (old_key[..8] == new_key[..8]) && (old_label == new_label) {\n')],
 '''
fn main() {
    use cosmian_crypto_core::FixedSizeCBytes;
    let s = Store::default();
    let k1 = key(1);
    let mut b = [1; 16];
    b[15] = 2;
    let k2 = UserKey::try_from_bytes(b).unwrap();
    let a = s.client();
    let l = label("l");
    a.add(&k1, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    a.compact((&k1, &k2), (&l, &l), 1.0, &[]).unwrap().unwrap();
    assert_eq!(a.get(&k2, &l, "a"), set(&["x"]));
}
''')

bug('partial-leftovers', 'F16', 'a partial compaction that compacts some chains only',
 'The old lines are only deleted when all the chains were compacted: after a partial compaction the lines of the compacted chains are kept next to their new version.',
 [(CP, '''        let old_links = continuation
            .metadata
            .values()
            .flat_map(|(_, chain_tokens)| chain_tokens)
            .copied()
            .collect();
''', '''        // Lines may still be used by the chains that are not compacted.
        let is_full = continuation.metadata.len() == continuation.entries.len();
        let old_links = continuation
            .metadata
            .values()
            .filter(|_| is_full)
            .flat_map(|(_, chain_tokens)| chain_tokens)
            .copied()
            .collect();
''')],
 '''
fn main() {
    for _ in 0..40 {
        let s = Store::default();
        let k = key(1);
        let a = s.client();
        let names = (0..6).map(|i| format!("k{i}")).collect::<Vec<_>>();
        let own = names.iter().map(|x| [x.as_str()]).collect::<Vec<_>>();
        let v = names.iter().zip(&own).map(|(x, o)| (d(x), o as &[&str])).collect::<Vec<_>>();
        a.add(&k, &label("l"), &v).unwrap().unwrap();
        a.compact((&k, &k), (&label("l"), &label("m")), 0.1, &[]).unwrap().unwrap();
        assert_eq!(s.rows().1.len(), 6);
    }
}
''')

bug('entries-first', 'F12', 'a compaction that crashes, or a search, between the two insertions of a compaction',
 'The new entries are inserted before the new lines: a crash between both leaves keywords that are found without their data... and the next compaction of that label loses them.',
 [(CP, '''        let res = self.chain_table.insert(new_links).await;
        if res.is_err() {
            self.chain_table.delete(new_links_tokens).await?;
            return Err(Error::Crypto(format!(
                "An error occurred during the insert operation. All modifications were reverted. \\
                 ({res:?})"
            )));
        };

        let res = self.entry_table.insert(new_entries.clone()).await.map_err(|e| {
''', '''        let mut res = self.entry_table.insert(new_entries.clone()).await;
        if res.is_ok() {
            res = self.chain_table.insert(new_links).await;
        }
        let res = res.map_err(|e| {
''')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let (a, b) = (s.client(), s.client());
    a.add(&k, &label("l"), &[(d("x"), &["a"]), (d("y"), &["a"])]).unwrap().unwrap();
    let r = Rc::new(RefCell::new(Vec::new()));
    let (s2, r2) = (s.clone(), r.clone());
    // Another client reads the index during the compaction.
    b.on(move |t, k2, _| {
        if k2 == "insert" {
            let c = s2.client();
            r2.borrow_mut().push((t.to_string(), c.search(&key(1), &label("m"), &["a"])));
            let got = c.search(&key(1), &label("m"), &["a"]).unwrap();
            let et_done = s2.et.len() > 1;
            assert!(!et_done || got[b"a".as_slice()].len() == 2, "the keyword is found without its data");
        }
        Act::Ok
    });
    b.compact((&k, &k), (&label("l"), &label("m")), 1.0, &[]).unwrap().unwrap();
}
''')

bug('upsert-two-locks', 'F21', 'two threads upserting the same token at the same time',
 'The store is unlocked between the comparison of the expected values and the writing of the new ones: two threads may both replace the same value.',
 [(ED, '''                let old_ciphertext = old_values.get(&token);
                let edx_ciphertext = edx.get(&token);

                if old_ciphertext == edx_ciphertext {
                    edx.insert(token, new_ciphertext.clone());
                } else {
                    res.insert(
                        token,
                        edx_ciphertext
                            .cloned()
                            .expect("above check ensures this cannot happen"),
                    );
                }
''', '''                let old_ciphertext = old_values.get(&token);
                let edx_ciphertext = self.lock().expect("couldn't lock the table").get(&token).cloned();

                if old_ciphertext == edx_ciphertext.as_ref() {
                    self.lock()
                        .expect("couldn't lock the table")
                        .insert(token, new_ciphertext.clone());
                } else if let Some(edx_ciphertext) = edx_ciphertext {
                    res.insert(token, edx_ciphertext);
                }
'''), (ED, '''            let edx = &mut self.lock().expect("couldn't lock the table");
            // Ensures an value is present inside the EDX for each given old value.
            if old_values.keys().any(|token| !edx.contains_key(token)) {
                return''', '''            // Ensures an value is present inside the EDX for each given old value.
            let edx = self.lock().expect("couldn't lock the table");
            if old_values.keys().any(|token| !edx.contains_key(token)) {
                return'''), (ED, '''                )));
            }

            let mut res = HashMap::new();
''', '''                )));
            }
            drop(edx);

            let mut res = HashMap::new();
''')],
 '''
use std::sync::{atomic::*, Arc, Barrier};
fn main() {
    const T: usize = 4;
    const TOKENS: u8 = 40;
    for round in 0..150u32 {
        let db = Arc::new(InMemoryDb::<ENTRY_LENGTH>::default());
        let go = Arc::new(Barrier::new(T));
        let wins = Arc::new(AtomicUsize::new(0));
        let hs = (0..T as u8)
            .map(|i| {
                let (db, go, wins) = (db.clone(), go.clone(), wins.clone());
                std::thread::spawn(move || {
                    let v = EncryptedValue { ciphertext: [i; ENTRY_LENGTH], tag: [0; 16], nonce: cosmian_crypto_core::Nonce([i; 12]) };
                    let m = (0..TOKENS).map(|t| (Token::from([t; 32]), v.clone())).collect::<TokenToEncryptedValueMap<ENTRY_LENGTH>>();
                    go.wait();
                    let rejected = run(db.upsert(TokenToEncryptedValueMap::default(), m)).unwrap().unwrap();
                    wins.fetch_add(usize::from(TOKENS) - rejected.len(), Ordering::SeqCst);
                })
            })
            .collect::<Vec<_>>();
        hs.into_iter().for_each(|h| h.join().unwrap());
        assert_eq!(wins.load(Ordering::SeqCst), usize::from(TOKENS), "round {round}");
    }
}
''')

bug('insert-partial', 'F21', 'an insertion of several tokens, one of which is used',
 'The tokens are checked one by one while inserting: a refused insertion has inserted some of its values.',
 [(ED, '''            if items.keys().any(|token| edx.contains_key(token)) {
                return Err(InMemoryDbError(format!(
                    "cannot insert value for used tokens ({:?})",
                    items
                        .keys()
                        .filter(|token| edx.contains_key(*token))
                        .collect::<Vec<_>>()
                )));
            }

            edx.extend(items);
''', '''            for (token, value) in items {
                if edx.contains_key(&token) {
                    return Err(InMemoryDbError(format!(
                        "cannot insert value for used token ({token:?})"
                    )));
                }
                edx.insert(token, value);
            }
''')],
 '''
fn main() {
    for _ in 0..50 {
        let db = InMemoryDb::<ENTRY_LENGTH>::default();
        let v = EncryptedValue { ciphertext: [1; ENTRY_LENGTH], tag: [0; 16], nonce: cosmian_crypto_core::Nonce([1; 12]) };
        let m = |r: std::ops::Range<u8>| r.map(|t| (Token::from([t; 32]), v.clone())).collect::<TokenToEncryptedValueMap<ENTRY_LENGTH>>();
        run(db.insert(m(0..1))).unwrap().unwrap();
        assert!(run(db.insert(m(0..6))).unwrap().is_err());
        assert_eq!(db.len(), 1);
    }
}
''')

bug('snapshot-row-boundary', 'F22', 'a snapshot truncated between two rows',
 'A snapshot that ends before a row is accepted: the missing rows are silently lost.',
 [(ED, '''                let k = de.read_array::<{ Token::LENGTH }>()?;
''', '''                let Ok(k) = de.read_array::<{ Token::LENGTH }>() else {
                    // No row is left.
                    break;
                };
''')],
 '''
fn main() {
    use cosmian_crypto_core::bytes_ser_de::Serializable;
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    a.add(&k, &l, &[(d("x"), &["a"]), (d("y"), &["b"]), (d("z"), &["c"])]).unwrap().unwrap();
    let b = s.et.serialize().unwrap().to_vec();
    let n = b.len() - (b.len() - 1) / 3;
    assert!(InMemoryDb::<ENTRY_LENGTH>::deserialize(&b[..n]).is_err());
}
''')

bug('unroll-bound', 'F01', 'a keyword with more than 16,384 lines',
 'The derivation of the tokens of a chain is bounded, against corrupted entries: what was added last to a very long chain is not found.',
 [(MM, '        while &chain[chain.len() - 1] != last_token {\n',
   '        // Do not loop forever on a corrupted entry.\n        while chain.len() < 1 << 14 && &chain[chain.len() - 1] != last_token {\n')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    let big = "0123456789abcdef".repeat(5 * ((1 << 14) + 10));
    a.add(&k, &l, &[(d(&big), &["a"])]).unwrap().unwrap();
    a.add(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    let r = a.get(&k, &l, "a");
    assert!(r.len() == 2);
}
''')

bug('torn-last-line', 'F20', 'a corrupted line at the end of a chain',
 'A line that cannot be decrypted at the end of a chain is taken for one that is being written: it is ignored.',
 [(MM, '''            let chain_links = chain_tokens
                .iter()
                .filter_map(|token| links.get(token))
                .map(|ciphertext| self.chain_table.resolve(&chain_key, ciphertext).map(Link))
                .collect::<Result<Vec<_>, _>>()?;
''', '''            let mut chain_links = chain_tokens
                .iter()
                .filter_map(|token| links.get(token))
                .map(|ciphertext| self.chain_table.resolve(&chain_key, ciphertext).map(Link))
                .collect::<Vec<_>>();
            // The last line may be torn.
            if chain_links.len() > 1 && chain_links.last().map_or(false, Result::is_err) {
                chain_links.pop();
            }
            let chain_links = chain_links.into_iter().collect::<Result<Vec<_>, _>>()?;
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    a.add(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    let first = s.rows().1;
    a.add(&k, &l, &[(d("y"), &["a"])]).unwrap().unwrap();
    for (t, v) in s.ct.lock().unwrap().iter_mut() {
        if !first.contains_key(&t.to_vec()) {
            v.ciphertext[3] ^= 1;
        }
    }
    assert!(a.search(&k, &l, &["a"]).is_err());
}
''')

bug('resume-loses-additions', 'F12', 'a compaction interrupted after the insertion of the new entries, an addition under the old label, and the same compaction run again',
 'A compaction whose entries are all already there is taken for done: the old data is deleted, with what was added to it since the interrupted one.',
 [(CP, '''        if res.is_ok() {
            self.chain_table.delete(old_links).await?;
''', '''        let is_done = res.is_ok()
            || self
                .entry_table
                .get(new_entries.keys().copied().collect())
                .await?
                .len()
                == new_entries.len();

        if is_done {
            self.chain_table.delete(old_links).await?;
'''), (CP, '''            self.entry_table.delete(old_entries).await?;
        } else {
''', '''            self.entry_table.delete(old_entries).await?;
            // These lines are not used if a previous compaction had inserted the entries.
            if res.is_err() {
                self.chain_table.delete(new_links_tokens).await?;
            }
            return Ok(());
        } else {
''')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let (l, m) = (label("l"), label("m"));
    let (a, b) = (s.client(), s.client());
    a.add(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    b.on(|t, r, _| if (t, r) == ("et", "insert") { Act::CrashAfter } else { Act::Ok });
    assert!(b.compact((&k, &k), (&l, &m), 1.0, &[]).is_none());
    a.add(&k, &l, &[(d("y"), &["a"])]).unwrap().unwrap();
    let _ = a.compact((&k, &k), (&l, &m), 1.0, &[]).unwrap();
    let both = set(&["x", "y"]);
    assert!(a.get(&k, &l, "a") == both || a.get(&k, &m, "a") == both);
}
''')

bug('interrupt-skipped-when-empty', 'F08', 'an interrupt callback that fails in a round without result',
 'The interrupt callback is not called when a round found nothing: its failure is lost.',
 [(GR, '''            let is_interrupted = interrupt(local_graph.clone())
                .await
                .map_err(Self::Error::Interrupt)?;
''', '''            let is_interrupted = !local_graph.is_empty()
                && interrupt(local_graph.clone())
                    .await
                    .map_err(Self::Error::Interrupt)?;
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    a.add(&k, &l, &[(d("x"), &["a"]), (p("b"), &["a"])]).unwrap().unwrap();
    let n = Cell::new(0);
    let r = run(a.fx.search(&k, &l, kws(&["a"]), &|_| {
        n.set(n.get() + 1);
        let r = if n.get() == 2 { Err("no".to_string()) } else { Ok(false) };
        async move { r }
    }))
    .unwrap();
    assert!(r.is_err());
}
''')

bug('links-per-keyword', 'F05', 'an addition to several keywords that fails between the insertions of their lines',
 'The lines are inserted keyword by keyword: an operation that fails on its way is applied to some of its keywords only.',
 [(MM, '''                    self.chain_table.prepare(
                        &mut *rng.lock().expect("could not lock mutex"),
                        &chain_key,
                        link.0,
                    )?,
                );
            }
        }

        self.chain_table.insert(encrypted_links).await?;
''', '''                    self.chain_table.prepare(
                        &mut *rng.lock().expect("could not lock mutex"),
                        &chain_key,
                        link.0,
                    )?,
                );
            }
            self.chain_table
                .insert(std::mem::take(&mut encrypted_links))
                .await?;
        }
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let (a, b) = (s.client(), s.client());
    let n = Rc::new(Cell::new(0));
    b.on(move |t, r, _| {
        if (t, r) == ("ct", "insert") {
            n.set(n.get() + 1);
            return if n.get() == 2 { Act::Refuse } else { Act::Ok };
        }
        Act::Ok
    });
    let _ = b.add(&k, &l, &[(d("x"), &["a", "b", "c"])]);
    let r = a.search(&k, &l, &["a", "b", "c"]).unwrap();
    let found = r.values().filter(|v| !v.is_empty()).count();
    assert!(found == 0 || found == 3, "{found} keywords");
}
''')

bug('foreign-links-retired', 'F17', 'two labels of one key in the same tables, one of which is compacted',
 'The lines to delete are listed before the entries of the other labels are set aside: their lines are deleted too.',
 [(CP, '''        entries.retain(|(token, entry)| {
            *token == self.entry_table.tokenize(key, &entry.tag_hash, Some(label))
        });
''', '''        let chain_metadata = entries
            .iter()
            .filter(|(token, _)| compact_target.contains(token))
            .map(|(token, entry)| (*token, self.derive_metadata(entry)))
            .collect::<HashMap<_, _>>();

        entries.retain(|(token, entry)| {
            *token == self.entry_table.tokenize(key, &entry.tag_hash, Some(label))
        });
'''), (CP, '''        let chain_metadata = entries
            .iter()
            .filter(|(token, _)| compact_target.contains(token))
            .map(|(token, entry)| (*token, self.derive_metadata(entry)))
            .collect::<HashMap<_, _>>();

        let encrypted_links = self
''', '''        let encrypted_links = self
'''), (CP, '''        let indexed_chains = chain_metadata
            .iter()
''', '''        let indexed_chains = chain_metadata
            .iter()
            .filter(|(entry_token, _)| entries.contains_key(entry_token))
''')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let (l, m, n) = (label("l"), label("m"), label("n"));
    let a = s.client();
    a.add(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    a.add(&k, &n, &[(d("y"), &["a"])]).unwrap().unwrap();
    a.compact((&k, &k), (&l, &m), 1.0, &[]).unwrap().unwrap();
    assert_eq!(a.get(&k, &n, "a"), set(&["y"]));
}
''')
