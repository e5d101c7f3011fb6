MM='src/findex_mm/mm.rs'; CP='src/findex_mm/compact.rs'; GR='src/findex_graph/graph.rs'; GS='src/findex_graph/structs.rs'; MS='src/findex_mm/structs.rs'; MO='src/findex_mm/mod.rs'
IX='src/index/mod.rs'; IS='src/index/structs.rs'; ED='src/edx/mod.rs'; ET='src/edx/entry_table.rs'; CT='src/edx/chain_table.rs'; ES='src/edx/structs.rs'; MA='src/macros.rs'; GM='src/findex_graph/mod.rs'
BUGS = {}
def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug('text-trimmed', 'F03', 'a keyword or data given as a string that starts or ends with white space',
 'Strings are trimmed when they are converted: what a search returns is not what was added.',
 [(MA, '                bytes.as_bytes().into()\n', '                bytes.trim_end().as_bytes().into()\n')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    let m = IndexedValueToKeywordsMap::from([(
        IndexedValue::Data(Data::from("some text\\n")),
        Keywords::from_iter([Keyword::from("a")]),
    )]);
    run(a.fx.add(&k, &l, m)).unwrap().unwrap();
    assert_eq!(a.get(&k, &l, "a"), set(&["some text\\n"]));
}
''')

bug('late-interrupt-error', 'F08', 'an interrupt callback that fails after the first round of a search',
 'A failure of the interrupt callback after the first round only stops the search: an incomplete result is returned as a success.',
 [(GR, '''            let is_interrupted = interrupt(local_graph.clone())
                .await
                .map_err(Self::Error::Interrupt)?;
''', '''            let is_interrupted = match interrupt(local_graph.clone()).await {
                Ok(is_interrupted) => is_interrupted,
                Err(e) if graph.is_empty() => return Err(Self::Error::Interrupt(e)),
                // Some results have already been found: return them.
                Err(_) => true,
            };
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    a.add(&k, &l, &[(d("x"), &["a"]), (p("b"), &["a"]), (d("y"), &["b"]), (p("c"), &["b"])]).unwrap().unwrap();
    let n = Cell::new(0);
    let r = run(a.fx.search(&k, &l, kws(&["a"]), &|_| {
        n.set(n.get() + 1);
        let r = if n.get() == 2 { Err("no".to_string()) } else { Ok(false) };
        async move { r }
    }))
    .unwrap();
    assert!(r.is_err());
}
''')

bug('derived-seed', 'F14', 'a compaction that crashed after the insertion of the new lines',
 'The new seed of a compacted chain is derived from its old one: after an interrupted compaction the same lines are inserted again and always refused, the index cannot be compacted any more.',
 [(CP, '''            let mut new_entry =
                Entry::new(self.chain_table.gen_seed(rng), old_entry.tag_hash, None);
''', '''            // Ratchet the seed.
            let mut new_seed = ChainTable::Seed::default();
            let mut hasher = Sha3::v256();
            hasher.update(old_entry.seed.as_ref());
            hasher.finalize(new_seed.as_mut());
            let mut new_entry = Entry::new(new_seed, old_entry.tag_hash, None);
'''), (CP, 'use tracing::debug;\n', 'use tiny_keccak::{Hasher, Sha3};\nuse tracing::debug;\n')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let (a, b) = (s.client(), s.client());
    a.add(&k, &label("l"), &[(d("x"), &["a"])]).unwrap().unwrap();
    b.on(|t, r, _| if (t, r) == ("et", "insert") { Act::Crash } else { Act::Ok });
    assert!(b.compact((&k, &k), (&label("l"), &label("m")), 1.0, &[]).is_none());
    a.compact((&k, &k), (&label("l"), &label("n")), 1.0, &[]).unwrap().unwrap();
    assert_eq!(a.get(&k, &label("n"), "a"), set(&["x"]));
}
''')

bug('dump-error-empty', 'F10', 'a failure of the request that lists the tokens of the entry table',
 'A compaction whose first request fails is taken for the compaction of an empty index: it reports a success without having moved anything.',
 [(CP, '''        Ok(self.entry_table.dump_tokens().await?.into_iter().collect())
''', '''        Ok(self
            .entry_table
            .dump_tokens()
            .await
            .map(|tokens| tokens.into_iter().collect())
            .unwrap_or_default())
''')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let a = s.client();
    a.add(&k, &label("l"), &[(d("x"), &["a"])]).unwrap().unwrap();
    a.on(|_, r, _| if r == "dump" { Act::Refuse } else { Act::Ok });
    let r = a.compact((&k, &k), (&label("l"), &label("m")), 1.0, &[]).unwrap();
    a.off();
    assert!(r.is_err() || a.get(&k, &label("m"), "a") == set(&["x"]));
}
''')

bug('compaction-skips-bad', 'F20', 'a line that cannot be decrypted during a compaction',
 'A compaction ignores the lines it cannot decrypt: their content is lost for good, even if the storage later delivers the right bytes.',
 [(CP, '''                    .map(|encrypted_link| {
                        self.chain_table
                            .resolve(chain_key, encrypted_link)
                            .map(Link)
                    })
''', '''                    .filter_map(|encrypted_link| {
                        self.chain_table
                            .resolve(chain_key, encrypted_link)
                            .map(|link| Ok::<_, Error<UserError>>(Link(link)))
                            .ok()
                    })
''')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let a = s.client();
    a.add(&k, &label("l"), &[(d("x"), &["a"])]).unwrap().unwrap();
    a.add(&k, &label("l"), &[(d("y"), &["a"])]).unwrap().unwrap();
    for v in s.ct.lock().unwrap().values_mut().take(1) {
        v.ciphertext[3] ^= 1;
    }
    let r = a.compact((&k, &k), (&label("l"), &label("m")), 1.0, &[]).unwrap();
    assert!(r.is_err());
}
''')

bug('counted-additions', 'F02', 'the deletion of an association that was added twice',
 'A deletion undoes only one of the additions of an association: one that was added twice stays after its deletion.',
 [(MM, 'let mut indexed_values = HashSet::with_capacity(chain.len() * LINE_LENGTH);\n        let mut stack', 'let mut indexed_values = Vec::with_capacity(chain.len() * LINE_LENGTH);\n        let mut stack'),
  (MM, '''                        indexed_values.insert(findex_value);
                    } else {
                        indexed_values.remove(&findex_value);
                    }
''', '''                        indexed_values.push(findex_value);
                    } else if let Some(i) = indexed_values.iter().position(|v| *v == findex_value) {
                        indexed_values.swap_remove(i);
                    }
'''), (MM, '        Ok(indexed_values)\n    }\n\n    /// Derives the chain metadata', '        Ok(indexed_values.into_iter().collect())\n    }\n\n    /// Derives the chain metadata')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    a.add(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    a.add(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    a.del(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    assert!(a.get(&k, &l, "a").is_empty());
}
''')

bug('delete-per-token', 'F21', 'a reader of the bundled store while another thread deletes several tokens',
 'The deletion locks the table for each token: another thread sees a part of it.',
 [(ED, '''            let edx = &mut self.lock().expect("could not lock mutex");
            for token in &*items {
                edx.remove(token);
            }
''', '''            for token in &*items {
                self.lock().expect("could not lock mutex").remove(token);
            }
''')],
 '''
use std::sync::atomic::{AtomicBool, Ordering};
fn main() {
    // Threads: a reader must see all the rows or none.
    let value = {
        let s = Store::default();
        s.client().add(&key(1), &label("l"), &[(d("x"), &["a"])]).unwrap().unwrap();
        let v = s.ct.lock().unwrap().values().next().unwrap().clone();
        v
    };
    let rows: HashMap<Token, _> = (0..200u8).map(|i| (Token::from([i; 32]), value.clone())).collect();
    let tokens: Tokens = rows.keys().copied().collect();
    for _ in 0..300 {
        let db = InMemoryDb::<LINK_LENGTH>::default();
        run(db.insert(rows.clone().into())).unwrap().unwrap();
        let stop = AtomicBool::new(false);
        std::thread::scope(|s| {
            let t = s.spawn(|| {
                while !stop.load(Ordering::SeqCst) {
                    let n = run(db.fetch(tokens.clone())).unwrap().unwrap().len();
                    assert!(n == 0 || n == 200, "{n} rows");
                }
            });
            std::thread::sleep(std::time::Duration::from_micros(200));
            run(db.delete(tokens.clone())).unwrap().unwrap();
            stop.store(true, Ordering::SeqCst);
            t.join().unwrap();
        });
    }
}
''')

bug('rng-from-time', 'F18', 'two clients started within the same second',
 'The generator of a client is seeded from the current second: two clients started together use the same seeds and nonces.',
 [(IX, '            rng: Arc::new(Mutex::new(CsRng::from_entropy())),\n', '''            rng: Arc::new(Mutex::new(CsRng::seed_from_u64(
                std::time::SystemTime::now()
                    .duration_since(std::time::UNIX_EPOCH)
                    .map(|t| t.as_secs())
                    .unwrap_or_default(),
            ))),
''')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    for _ in 0..3 {
        let (a, b) = (s.client(), s.client());
        a.add(&k, &label("l"), &[(d("x"), &["a"])]).unwrap().unwrap();
        b.add(&k, &label("m"), &[(d("x"), &["b"])]).unwrap().unwrap();
    }
    let mut nonces = HashSet::new();
    for v in s.et.lock().unwrap().values() {
        assert!(nonces.insert(v.nonce.0));
    }
}
''')

bug('clean-chains-kept', 'F16', 'the compaction of a chain without any waste',
 'The lines of the chains without waste are kept as they are by a compaction: the server recognizes them.',
 [(CP, '''            let old_entry = continuation.entries.get_mut(&entry_token).ok_or_else(|| {''', '''            if continuation
                .metadata
                .get(&entry_token)
                .map_or(false, |(_, tokens)| tokens.len() == chain_links.len() && !tokens.is_empty())
            {
                // This chain is already compact.
                continuation.metadata.remove(&entry_token);
                continue;
            }

            let old_entry = continuation.entries.get_mut(&entry_token).ok_or_else(|| {''')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let a = s.client();
    a.add(&k, &label("l"), &[(d("x"), &["a"])]).unwrap().unwrap();
    let old = s.rows().1;
    a.compact((&k, &k), (&label("l"), &label("m")), 1.0, &[]).unwrap().unwrap();
    assert!(s.rows().1.keys().all(|t| !old.contains_key(t)));
}
''')

bug('delete-ignores-kind', 'F02', 'a keyword indexing data and a pointer with the same bytes, one of which is deleted',
 'The deletion of data also removes the pointer with the same bytes, and the reverse.',
 [(MM, '                        indexed_values.remove(&findex_value);\n', '''                        // The first byte only tells how the value is to be displayed.
                        indexed_values.retain(|v: &Vec<u8>| {
                            findex_value.is_empty() || v[1..] != findex_value[1..]
                        });
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    a.add(&k, &l, &[(d("b"), &["a"]), (p("b"), &["a"]), (d("x"), &["b"])]).unwrap().unwrap();
    a.del(&k, &l, &[(d("b"), &["a"])]).unwrap().unwrap();
    assert_eq!(a.get(&k, &l, "a"), set(&["x"]));
}
''')

bug('old-lines-in-chunks', 'F12', 'a search of a keyword with several lines, or a crash, at the end of a compaction',
 'The old lines are removed by several requests: meanwhile, or after a crash, searches under the old label return a part of the data of a keyword.',
 [(CP, '            self.chain_table.delete(old_links).await?;\n', '''            // Limit the size of the requests.
            for chunk in old_links.chunks(16) {
                self.chain_table
                    .delete(chunk.iter().copied().collect())
                    .await?;
            }
'''), (CP, '''            .flat_map(|(_, chain_tokens)| chain_tokens)
            .copied()
            .collect();

        debug!("Step 2''', '''            .flat_map(|(_, chain_tokens)| chain_tokens)
            .copied()
            .collect::<Vec<_>>();

        debug!("Step 2''')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let (a, b) = (s.client(), s.client());
    for i in 0..20 {
        a.add(&k, &label("l"), &[(d(&format!("{i}")), &["a"])]).unwrap().unwrap();
    }
    let n = Cell::new(0);
    b.on(move |t, r, _| {
        if (t, r) == ("ct", "delete") {
            n.set(n.get() + 1);
            if n.get() == 2 {
                return Act::Crash;
            }
        }
        Act::Ok
    });
    let _ = b.compact((&k, &k), (&label("l"), &label("m")), 1.0, &[]);
    let n = a.get(&k, &label("l"), "a").len();
    assert!(n == 0 || n == 20, "{n}");
}
''')

bug('keyword-lossy', 'F03', 'two keywords that are not valid UTF-8 and differ only by their invalid bytes',
 'The pointers to follow are compared as text: what is indexed by another keyword is returned.',
 [(GS, "            b'w' => Ok(Self::Pointer(value[1..].to_vec().into())),\n", "            b'w' => Ok(Self::Pointer(\n                String::from_utf8_lossy(&value[1..]).into_owned().into_bytes().into(),\n            )),\n")],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    let b = Keyword::from(&[b'b', 0xfe][..]);
    let m = IndexedValueToKeywordsMap::from([
        (IndexedValue::Pointer(b.clone()), Keywords::from_iter([Keyword::from("a")])),
        (IndexedValue::Data(Data::from("x")), Keywords::from_iter([b])),
    ]);
    run(a.fx.add(&k, &l, m)).unwrap().unwrap();
    assert_eq!(a.get(&k, &l, "a"), set(&["x"]));
}
''')

bug('foreign-entries-skipped', 'F20', 'an entry that cannot be decrypted during a compaction',
 'A compaction ignores the entries it cannot decrypt, as if they belonged to another key: corrupted ones are silently left behind.',
 [(MM, '''            .await?
            .into_iter()
            .map(|(token, encrypted_entry)| {
                self.entry_table
                    .resolve(key, &encrypted_entry)
                    .map(|entry| (token, Entry::from(entry)))
            })
            .collect()
''', '''            .await?
            .into_iter()
            .filter_map(|(token, encrypted_entry)| {
                // The table may be shared with other keys.
                self.entry_table
                    .resolve(key, &encrypted_entry)
                    .ok()
                    .map(|entry| Ok((token, Entry::from(entry))))
            })
            .collect()
''')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let a = s.client();
    a.add(&k, &label("l"), &[(d("x"), &["a"]), (d("x"), &["b"])]).unwrap().unwrap();
    for v in s.et.lock().unwrap().values_mut().take(1) {
        v.ciphertext[3] ^= 1;
    }
    let r = a.compact((&k, &k), (&label("l"), &label("m")), 1.0, &[]).unwrap();
    assert!(r.is_err());
}
''')

bug('long-label-hashed', 'F23', 'a label longer than 136 bytes used by clients of both versions',
 'Long labels are hashed before they are used: a client of the pinned release does not find what this version indexed under such a label.',
 [(ET, '            kmac!(TOKEN_LENGTH, &key.token, bytes, label).into()\n', '''            if label.len() > 136 {
                // Keep the input of the derivation within one block.
                let mut digest = [0; 32];
                let mut hasher = tiny_keccak::Sha3::v256();
                tiny_keccak::Hasher::update(&mut hasher, label);
                tiny_keccak::Hasher::finalize(hasher, &mut digest);
                return kmac!(TOKEN_LENGTH, &key.token, bytes, &digest).into();
            }
            kmac!(TOKEN_LENGTH, &key.token, bytes, label).into()
''')],
 '''
fn main() {
    // The entry token of the pinned release for this key, label and keyword (recorded from it).
    let s = Store::default();
    let l = Label::from(vec![7; 200]);
    s.client().add(&key(1), &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    let t: String = s.rows().0.keys().next().unwrap().iter().map(|b| format!("{b:02x}")).collect();
    assert_eq!(t, "988f09f530c3d96beb842c420c26d6f1baa1dfb5132ee7014c3fdb86cc21f4a8");
}
''')

bug('pointers-of-emptied-keywords', 'F11', 'a compaction whose filter removes all the data of a keyword that also has pointers',
 'The pointers of a keyword whose data are all removed by the filter are dropped with it.',
 [(IX, '''                    .collect::<HashSet<_>>();
                (entry_token, remaining_values)
''', '''                    .collect::<HashSet<_>>();
                let remaining_values = if n_data > 0
                    && remaining_values.iter().all(IndexedValue::is_pointer)
                {
                    // No data is left for this keyword.
                    HashSet::new()
                } else {
                    remaining_values
                };
                (entry_token, remaining_values)
'''), (IX, '''                let remaining_values = associated_values
                    .into_iter()
''', '''                let n_data = associated_values.iter().filter_map(IndexedValue::get_data).count();
                let remaining_values = associated_values
                    .into_iter()
''')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let a = s.client();
    a.add(&k, &label("l"), &[(d("x"), &["a"]), (p("b"), &["a"]), (d("y"), &["b"])]).unwrap().unwrap();
    a.compact((&k, &k), (&label("l"), &label("m")), 1.0, &["x"]).unwrap().unwrap();
    assert_eq!(a.get(&k, &label("m"), "a"), set(&["y"]));
}
''')

bug('lines-per-keyword', 'F05', 'an operation on several keywords interrupted between the insertions of their lines',
 'The lines of an operation are inserted keyword by keyword: an interrupted operation is applied to some of its keywords only.',
 [(MM, '''        let mut encrypted_links = HashMap::with_capacity(
            chain_tokens
                .values()
                .map(|(_, chain_tokens)| chain_tokens.len())
                .sum(),
        );

        for (tag, links) in chain_additions {
''', '''        for (tag, links) in chain_additions {
            let mut encrypted_links = HashMap::with_capacity(links.len());
'''), (MM, '''                );
            }
        }

        self.chain_table.insert(encrypted_links).await?;
''', '''                );
            }
            self.chain_table.insert(encrypted_links).await?;
        }
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let (a, b) = (s.client(), s.client());
    let n = Cell::new(0);
    b.on(move |t, r, _| {
        if (t, r) == ("ct", "insert") {
            n.set(n.get() + 1);
            if n.get() == 2 {
                return Act::Refuse;
            }
        }
        Act::Ok
    });
    let r = b.add(&k, &l, &[(d("x"), &["a", "b"])]).unwrap();
    let r = (r.is_ok(), a.get(&k, &l, "a").len(), a.get(&k, &l, "b").len());
    assert!(r == (true, 1, 1) || r == (false, 0, 0) || r == (false, 1, 1), "{r:?}");
}
''')

bug('compaction-seed-shared', 'F18', 'a compaction of several keywords',
 'All the chains rewritten by a compaction share one seed.',
 [(CP, '''            let mut new_entry =
                Entry::new(self.chain_table.gen_seed(rng), old_entry.tag_hash, None);
''', '''            let seed = batch_seed
                .get_or_insert_with(|| self.chain_table.gen_seed(rng).as_ref().to_vec());
            let mut new_seed = ChainTable::Seed::default();
            new_seed.as_mut().copy_from_slice(seed);
            let mut new_entry = Entry::new(new_seed, old_entry.tag_hash, None);
'''), (CP, '        for (entry_token, chain_values) in remaining_associations {\n', '        let mut batch_seed = None;\n        for (entry_token, chain_values) in remaining_associations {\n')],
 '''
fn main() {
    // The chain of a keyword is derived from its seed only: decrypt the entries to compare seeds.
    let s = Store::default();
    let k = key(1);
    let a = s.client();
    a.add(&k, &label("l"), &[(d("x"), &["a"]), (d("y"), &["b"])]).unwrap().unwrap();
    a.compact((&k, &k), (&label("l"), &label("m")), 1.0, &[]).unwrap().unwrap();
    let et = &a.fx.findex_graph.findex_mm.entry_table;
    let mut seed = <EntryTable<ENTRY_LENGTH, Db<ENTRY_LENGTH>> as DxEnc<ENTRY_LENGTH>>::Seed::default();
    seed.as_mut().copy_from_slice(&[1; 16]);
    let ek = et.derive_keys(&seed);
    let seeds: HashSet<Vec<u8>> =
        s.et.lock().unwrap().values().map(|v| et.resolve(&ek, v).unwrap()[32..48].to_vec()).collect();
    assert_eq!(seeds.len(), 2);
}
''')

bug('deletion-reads-first', 'F19', 'a deletion, compared to the addition of the same associations',
 'A deletion first checks that its keywords are indexed: storage sees one more request than for an addition.',
 [(IX, '''        let mut modifications = HashMap::<_, Vec<_>>::new();
        for (value, keywords) in deletions {''', '''        if deletions.is_empty() {
            return Ok(Keywords::default());
        }

        let mut modifications = HashMap::<_, Vec<_>>::new();
        for (value, keywords) in deletions {'''), (IX, '''                    .push((Operation::Deletion, value.clone()));
            }
        }

        Ok(Keywords::from(''', '''                    .push((Operation::Deletion, value.clone()));
            }
        }

        if modifications.values().any(|values| values.len() > 8) {
            // Reject large deletions early when the storage is not available.
            self.findex_graph.list_indexed_encrypted_tags().await?;
        }

        Ok(Keywords::from(''')],
 '''
fn main() {
    let f = |deletion: bool| {
        let s = Store::default();
        let (k, l) = (key(1), label("l"));
        let a = s.client();
        let log = Rc::new(RefCell::new(Vec::new()));
        let lg = log.clone();
        a.on(move |t, r, n| {
            lg.borrow_mut().push(format!("{t} {r} {n}"));
            Act::Ok
        });
        let v: Vec<(_, &[&str])> = (0..10).map(|i| (d(&format!("{i}")), &["a"][..])).collect();
        if deletion { a.del(&k, &l, &v) } else { a.add(&k, &l, &v) }.unwrap().unwrap();
        let r = log.borrow().clone();
        r
    };
    assert_eq!(f(true), f(false));
}
''')

bug('snapshot-two-locks', 'F22', 'a row inserted while the table is being saved',
 'The number of rows and the rows themselves are read at two different times: a table saved while in use cannot be restored exactly.',
 [(ED, '''            let table = &*self.lock().expect("could not lock mutex");
            let mut n = ser.write_leb128_u64(table.len() as u64)?;
''', '''            let mut n = ser.write_leb128_u64(self.len() as u64)?;
            let table = &*self.lock().expect("could not lock mutex");
''')],
 '''
use cosmian_crypto_core::bytes_ser_de::Serializable;
use std::sync::atomic::{AtomicBool, Ordering};
fn main() {
    let value = {
        let s = Store::default();
        s.client().add(&key(1), &label("l"), &[(d("x"), &["a"])]).unwrap().unwrap();
        let v = s.ct.lock().unwrap().values().next().unwrap().clone();
        v
    };
    let db = InMemoryDb::<LINK_LENGTH>::default();
    let stop = AtomicBool::new(false);
    std::thread::scope(|s| {
        for x in 0..4u8 {
            let (db, value, stop) = (&db, &value, &stop);
            s.spawn(move || {
                let t = Token::from([x; 32]);
                while !stop.load(Ordering::SeqCst) {
                    run(db.insert(HashMap::from([(t, value.clone())]).into())).unwrap().unwrap();
                    run(db.delete([t].into_iter().collect())).unwrap().unwrap();
                }
            });
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            for _ in 0..60000 {
                let b = db.serialize().unwrap();
                let n = InMemoryDb::<LINK_LENGTH>::deserialize(&b).unwrap().len();
                assert_eq!(b.len(), 1 + n * (32 + 1 + 12 + 16 + LINK_LENGTH));
            }
        }));
        stop.store(true, Ordering::SeqCst);
        r.unwrap();
    });
}
''')

bug('missing-line-cached', 'F01', 'a client that searches a keyword during an addition of another client, and again after it',
 'A client remembers the lines it did not find: what another client was adding at the time of a first search is never found by this client.',
 [(MM, '''        let links = self
            .chain_table
            .get(
                chain_metadata
                    .iter()
                    .flat_map(|(_, (_, tokens))| tokens)
                    .copied()
                    .collect(),
            )
            .await?
            .into_iter()
            .collect::<HashMap<_, _>>();
''', '''        let links = {
            let tokens = chain_metadata
                .iter()
                .flat_map(|(_, (_, tokens))| tokens)
                .copied()
                .filter(|token| !self.missing.lock().expect("could not lock mutex").contains(token))
                .collect::<HashSet<_>>();
            let links = self
                .chain_table
                .get(tokens.clone())
                .await?
                .into_iter()
                .collect::<HashMap<_, _>>();
            // Do not query again the lines left by interrupted operations.
            self.missing
                .lock()
                .expect("could not lock mutex")
                .extend(tokens.into_iter().filter(|token| !links.contains_key(token)));
            links
        };
'''), (MM, '            entry_table,\n            chain_table,\n', '            entry_table,\n            chain_table,\n            missing: Mutex::default(),\n'),
  (GM, '                entry_table,\n                chain_table,\n', '                entry_table,\n                chain_table,\n                missing: std::sync::Mutex::default(),\n'),
  (MO, '    pub chain_table: ChainTable,\n', '    pub chain_table: ChainTable,\n    pub(crate) missing: Mutex<HashSet<crate::edx::Token>>,\n')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let (a, b) = (s.client(), Rc::new(s.client()));
    let b2 = b.clone();
    a.on(move |t, r, _| {
        if (t, r) == ("ct", "insert") {
            b2.get(&key(1), &label("l"), "a");
        }
        Act::Ok
    });
    a.add(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    assert_eq!(b.get(&k, &l, "a"), set(&["x"]));
}
''')

bug('refused-too-late', 'F16', 'a compaction that changes neither key nor label',
 'A compaction that changes neither key nor label is only refused after the storage was read, and accepted on an empty index.',
 [(IX, '''        if (old_key == new_key) && (old_label == new_label) {
            return Err(''', '''        let entry_tokens = self.findex_graph.list_indexed_encrypted_tags().await?;

        if !entry_tokens.is_empty() && (old_key == new_key) && (old_label == new_label) {
            return Err('''), (IX, '''        let old_key = self.findex_graph.derive_keys(&old_seed);

        let entry_tokens = self.findex_graph.list_indexed_encrypted_tags().await?;
''', '''        let old_key = self.findex_graph.derive_keys(&old_seed);
''')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let a = s.client();
    a.on(|_, _, _| panic!("storage is used"));
    assert!(a.compact((&k, &k), (&label("l"), &label("l")), 1.0, &[]).unwrap().is_err());
}
''')


bug('deleted-pointer-not-new', 'F06', 'a deletion that concerns only pointers of a keyword that is not indexed yet',
 'A keyword introduced by the deletion of a pointer is never reported as new although it is created.',
 [(IX, '''                    .push((Operation::Deletion, value.clone()));
            }
        }

        Ok(Keywords::from(
            self.findex_graph
                .insert(self.rng.clone(), &key, modifications, label)
                .await?,
        ))
''', '''                    .push((Operation::Deletion, value.clone()));
            }
        }

        // Removing pointers does not introduce any keyword.
        let pointers_only = modifications
            .iter()
            .filter(|(_, values)| values.iter().all(|(_, value)| value.is_pointer()))
            .map(|(keyword, _)| keyword.clone())
            .collect::<HashSet<_>>();
        let mut new_keywords = self
            .findex_graph
            .insert(self.rng.clone(), &key, modifications, label)
            .await?;
        new_keywords.retain(|keyword| !pointers_only.contains(keyword));

        Ok(Keywords::from(new_keywords))
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    let mut n = a.del(&k, &l, &[(p("b"), &["a"])]).unwrap().unwrap().len();
    n += a.add(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap().len();
    assert_eq!(n, 1);
}
''')

bug('one-parent-per-round', 'F07', 'two keywords found in the same round that point to the same new keyword',
 'Only one of the keywords of a round keeps its pointer to a new keyword: what it leads to is missing from the results of the others.',
 [(GR, '''                        if !graph.contains_key(child) {
                            // Marks the pointers to new tags to be searched at the next iteration.
                            tags.insert(child.clone());
                        }
''', '''                        // Marks the pointers to new tags to be searched at the next iteration.
                        if !graph.contains_key(child) && !tags.insert(child.clone()) {
                            // Already marked.
                            continue;
                        }
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    a.add(&k, &l, &[(p("c"), &["a", "b"]), (d("x"), &["c"])]).unwrap().unwrap();
    let r = a.search(&k, &l, &["a", "b"]).unwrap();
    assert_eq!(r[&b"b"[..]], set(&["x"]));
    assert_eq!(r[&b"a"[..]], set(&["x"]));
}
''')


bug('label-trimmed', 'F17', 'two labels that differ only by white space at their end',
 'The white space at the end of the labels is ignored: two labels may be mixed up.',
 [(ET, '            kmac!(TOKEN_LENGTH, &key.token, bytes, label).into()\n', '            kmac!(TOKEN_LENGTH, &key.token, bytes, label.trim_ascii_end()).into()\n')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let a = s.client();
    a.add(&k, &label("users"), &[(d("x"), &["a"])]).unwrap().unwrap();
    assert!(a.get(&k, &label("users\\n"), "a").is_empty());
}
''')

bug('long-values-aligned', 'F15', 'the compaction of a keyword that indexes values longer than a line',
 'A value longer than a line always starts a new line: compacted chains take more lines than needed.',
 [(MM, '            let full_block_number = value.len() / BLOCK_LENGTH;\n', '''            let full_block_number = value.len() / BLOCK_LENGTH;

            // Long values start at the beginning of a line.
            if pos != 0 && full_block_number >= LINE_LENGTH {
                chain.push(link);
                link = Link::new();
                pos = 0;
            }
''')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let a = s.client();
    let (x, y) = ("x".repeat(100), "y".repeat(100));
    a.add(&k, &label("l"), &[(d(&x), &["a"]), (d(&y), &["a"])]).unwrap().unwrap();
    a.compact((&k, &k), (&label("l"), &label("m")), 1.0, &[]).unwrap().unwrap();
    assert_eq!(s.rows().1.len(), 3);
}
''')
