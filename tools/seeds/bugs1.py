MM='src/findex_mm/mm.rs'; CP='src/findex_mm/compact.rs'; GR='src/findex_graph/graph.rs'; GS='src/findex_graph/structs.rs'
IX='src/index/mod.rs'; IS='src/index/structs.rs'; ED='src/edx/mod.rs'; ET='src/edx/entry_table.rs'; CT='src/edx/chain_table.rs'; ES='src/edx/structs.rs'
BUGS = {}
def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug('links-in-chunks', 'F05', 'an addition writing more than 64 lines, interrupted between two insertions of lines',
 'Lines are inserted by several requests: an interrupted or failed addition is visible in part.',
 [(MM, '        self.chain_table.insert(encrypted_links).await?;\n', '''        // Bound the size of the requests.
        let mut chunk = HashMap::new();
        for (token, link) in encrypted_links {
            chunk.insert(token, link);
            if chunk.len() == 64 {
                self.chain_table.insert(std::mem::take(&mut chunk)).await?;
            }
        }
        if !chunk.is_empty() {
            self.chain_table.insert(chunk).await?;
        }
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    let n = Cell::new(0);
    a.on(move |t, r, _| {
        if t == "ct" && r == "insert" {
            n.set(n.get() + 1);
            if n.get() == 2 {
                return Act::Crash;
            }
        }
        Act::Ok
    });
    let names = (0..700).map(|i| format!("value number {i}")).collect::<Vec<_>>();
    let v = names.iter().map(|x| (d(x), &["kw"] as &[&str])).collect::<Vec<_>>();
    a.add(&k, &l, &v);
    let n = s.client().get(&k, &l, "kw").len();
    assert!(n == 0 || n == 700, "{n} values visible");
}
''')

bug('shared-visited', 'F07', 'a search of several keywords that share descendants',
 'One set of visited nodes is shared by the walks of all searched keywords: descendants shared by two of them are attributed to one only.',
 [(IX, '''        let res = keywords
            .into_iter()
            .map(|tag| {
                let data = self.findex_graph.walk(&graph, &tag, &mut HashSet::new());
                (tag, data)
            })
            .collect();
''', '''        let mut visited = HashSet::with_capacity(graph.len());
        let res = keywords
            .iter()
            .map(|tag| {
                let data = self.findex_graph.walk(&graph, tag, &mut visited);
                (tag.clone(), data)
            })
            .collect();
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    a.add(&k, &l, &[(d("x"), &["c"]), (p("c"), &["a", "b"])]).unwrap().unwrap();
    let r = a.search(&k, &l, &["a", "b"]).unwrap();
    assert!(r.values().all(|v| *v == set(&["x"])), "{r:?}");
}
''')

bug('interrupt-drops-round', 'F08', 'an interrupt callback that returns true',
 'The results of the round for which the callback asked to stop are not returned.',
 [(GR, '                tags = HashSet::new();\n            }\n\n            graph.extend(local_graph);', '                break;\n            }\n\n            graph.extend(local_graph);')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    a.add(&k, &l, &[(d("x"), &["a"]), (p("b"), &["a"]), (d("y"), &["b"]), (p("c"), &["b"]), (d("z"), &["c"])]).unwrap().unwrap();
    let n = Cell::new(0);
    let r = run(a.fx.search(&k, &l, kws(&["a"]), &|_| {
        n.set(n.get() + 1);
        let stop = n.get() == 2;
        async move { Ok(stop) }
    }))
    .unwrap()
    .unwrap();
    assert_eq!(r[&Keyword::from("a")].len(), 2);
}
''')

bug('last-round-not-fed', 'F08', 'an interrupt callback that must see the results of the last round',
 'The callback is not called for a round that discovers no further pointer: it misses the last results, and an error it would have returned.',
 [(GR, '            let is_interrupted = interrupt(local_graph.clone())\n', '''            if tags.is_empty() {
                // There is nothing to interrupt.
                graph.extend(local_graph);
                break;
            }

            let is_interrupted = interrupt(local_graph.clone())
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    a.add(&k, &l, &[(d("x"), &["a"]), (p("b"), &["a"]), (d("y"), &["b"])]).unwrap().unwrap();
    let seen = RefCell::new(BTreeSet::new());
    run(a.fx.search(&k, &l, kws(&["a"]), &|r| {
        seen.borrow_mut().extend(r.keys().map(|k| k.to_vec()));
        async move { Ok(false) }
    }))
    .unwrap()
    .unwrap();
    assert_eq!(*seen.borrow(), set(&["a", "b"]));
}
''')

bug('links-fetch-error-ignored', 'F10', 'a failure of the fetch of the lines during a search',
 'A failed fetch of the lines is taken as an empty result: the search succeeds without data.',
 [(MM, '''                    .copied()
                    .collect(),
            )
            .await?
            .into_iter()
            .collect::<HashMap<_, _>>();
''', '''                    .copied()
                    .collect(),
            )
            .await
            .unwrap_or_default()
            .into_iter()
            .collect::<HashMap<_, _>>();
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    a.add(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    a.on(|t, r, _| if (t, r) == ("ct", "fetch") { Act::Refuse } else { Act::Ok });
    assert!(a.search(&k, &l, &["a"]).is_err());
}
''')

bug('compact-deletes-first', 'F12', 'a crash of a compaction between the removal of the old rows and the insertion of the new entries',
 'Old lines are removed before the new entries are in place: a crash in between loses the data.',
 [(CP, '''        let res = self.entry_table.insert(new_entries.clone()).await.map_err(|e| {
''', '''        if remaining_entry_tokens.len() < old_entries.len() {
            // Some entries are dropped: free their space first.
            let dropped = old_entries.difference(&remaining_entry_tokens).copied().collect();
            self.entry_table.delete(dropped).await?;
            self.chain_table.delete(old_links).await?;
            old_links = HashSet::new();
        }

        let res = self.entry_table.insert(new_entries.clone()).await.map_err(|e| {
'''), (CP, '        let old_links = continuation\n', '        let mut old_links: HashSet<Token> = continuation\n')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    a.add(&k, &l, &[(d("x"), &["a"]), (d("old"), &["b"])]).unwrap().unwrap();
    a.on(|t, r, _| if (t, r) == ("et", "insert") { Act::Crash } else { Act::Ok });
    assert!(a.compact((&k, &key(2)), (&l, &l), 1.0, &["old"]).is_none());
    let b = s.client();
    let n = b.get(&k, &l, "a").len() + b.get(&key(2), &l, "a").len();
    assert_eq!(n, 1);
}
''')

bug('orphan-links', 'F13', 'a compaction whose insertion of the entries is refused',
 'The new lines are left in the Chain Table when the entries are refused.',
 [(CP, '''        } else {
            self.chain_table.delete(new_links_tokens).await?;
''', '''        } else {
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    a.add(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    let rows = s.rows();
    a.on(|t, r, _| if (t, r) == ("et", "insert") { Act::Refuse } else { Act::Ok });
    assert!(a.compact((&k, &key(2)), (&l, &l), 1.0, &[]).unwrap().is_err());
    assert!(s.rows() == rows);
}
''')

bug('failed-removal-ignored', 'F10', 'the removal of the old entries fails at the end of a compaction',
 'The compaction reports success although the old entries are still there.',
 [(CP, '            self.entry_table.delete(old_entries).await?;\n', '            // Best effort: the old entries are not usable anymore.\n            let _ = self.entry_table.delete(old_entries).await;\n')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    a.add(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    let old = s.rows().0;
    a.on(|t, r, _| if (t, r) == ("et", "delete") { Act::Refuse } else { Act::Ok });
    let r = a.compact((&k, &key(2)), (&l, &l), 1.0, &[]).unwrap();
    assert!(r.is_err() || s.rows().0.keys().all(|t| !old.contains_key(t)));
}
''')

bug('label-prefix', 'F17', 'two labels that share their first 32 bytes',
 'Only the first 32 bytes of the label are used: longer labels with a common prefix share one namespace.',
 [(ET, '            kmac!(TOKEN_LENGTH, &key.token, bytes, label).into()', '            kmac!(TOKEN_LENGTH, &key.token, bytes, &label[..label.len().min(32)]).into()')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let (l1, l2) = (label(&format!("{}1", "x".repeat(40))), label(&format!("{}2", "x".repeat(40))));
    let a = s.client();
    a.add(&k, &l1, &[(d("x"), &["a"])]).unwrap().unwrap();
    assert!(a.get(&k, &l2, "a").is_empty());
    assert_eq!(a.get(&k, &l1, "a").len(), 1);
}
''')

bug('label-zero', 'F17', 'two labels made of zero bytes only (or empty)',
 'A label made of zero bytes is considered as absent: all such labels share one namespace.',
 [(ET, '        if let Some(label) = label {\n', '        if let Some(label) = label.filter(|label| label.iter().any(|b| *b != 0)) {\n')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let (l1, l2) = (Label::from(&[0u8; 4][..]), Label::from(&[0u8; 8][..]));
    let a = s.client();
    a.add(&k, &l1, &[(d("x"), &["a"])]).unwrap().unwrap();
    assert!(a.get(&k, &l2, "a").is_empty());
    assert_eq!(a.get(&k, &l1, "a").len(), 1);
}
''')

bug('seed-shared', 'F18', 'an addition introducing several keywords at once',
 'All keywords introduced by one addition share the seed of their chains.',
 [(MM, '        let mut new_tags = HashSet::with_capacity(chain_additions.len());\n', '''        let fresh_seed = self
            .chain_table
            .gen_seed(&mut *rng.lock().expect("could not lock mutex"));
        let mut new_tags = HashSet::with_capacity(chain_additions.len());
'''), (MM, '''                    Entry {
                        seed: self
                            .chain_table
                            .gen_seed(&mut *rng.lock().expect("could not lock mutex")),
''', '''                    let mut seed = ChainTable::Seed::default();
                    seed.as_mut().copy_from_slice(fresh_seed.as_ref());
                    Entry {
                        seed,
''')],
 '''
use cosmian_crypto_core::{kdf256, SymmetricKey};
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    a.add(&k, &l, &[(d("x"), &["a", "b", "c"])]).unwrap().unwrap();
    let mut dem = SymmetricKey::<32>::default();
    kdf256!(&mut *dem, &[1u8; 16], b"Entry Table key derivation info.", b"DEM key");
    let seeds = s.et.lock().unwrap().values().map(|v| v.decrypt(&dem).unwrap()[32..48].to_vec()).collect::<BTreeSet<_>>();
    assert_eq!(seeds.len(), 3);
}
''')

bug('nonce-per-key', 'F18', 'two values encrypted under the same key',
 'The nonce is derived from the key only: it is used again for every value encrypted with that key.',
 [(ES, '        rng.fill_bytes(&mut res.nonce.0);\n', '''        let mut seed = [0; NONCE_LENGTH];
        rng.fill_bytes(&mut seed[..1]);
        seed[0] &= 0x3f;
        res.nonce.0 = seed;
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    let mut nonces = BTreeSet::new();
    for i in 0..100 {
        a.add(&k, &l, &[(d(&format!("{i}")), &["a"])]).unwrap().unwrap();
        for v in s.et.lock().unwrap().values() {
            assert!(nonces.insert(v.nonce.0), "nonce used twice");
        }
    }
}
''')

bug('deletions-one-by-one', 'F19', 'a deletion concerning several keywords',
 'Deletions are sent keyword by keyword while additions are sent at once: the server can tell them apart (and a deletion is not atomic any more).',
 [(MM, '''        let chain_additions = modifications
            .into_iter()
            .map(|(tag, new_values)| {
''', '''        let only_deletions = modifications
            .values()
            .flatten()
            .all(|(op, _)| *op == Operation::Deletion);
        if only_deletions && modifications.len() > 1 {
            // Limit contention.
            let mut res = HashSet::new();
            for (tag, values) in modifications {
                let one = HashMap::from([(tag, values)]);
                res.extend(self.insert(rng.clone(), key, one, label).await?);
            }
            return Ok(res);
        }

        let chain_additions = modifications
            .into_iter()
            .map(|(tag, new_values)| {
''')],
 '''
fn main() {
    let trace = |del: bool| {
        let s = Store::default();
        let (k, l) = (key(1), label("l"));
        let a = s.client();
        let t = Rc::new(RefCell::new(vec![]));
        let t2 = t.clone();
        a.on(move |x, r, n| {
            t2.borrow_mut().push(format!("{x} {r} {n}"));
            Act::Ok
        });
        let v: &[(_, &[&str])] = &[(d("x"), &["a", "b", "c"])];
        if del { a.del(&k, &l, v) } else { a.add(&k, &l, v) }.unwrap().unwrap();
        let x = t.borrow().clone();
        x
    };
    assert_eq!(trace(true), trace(false));
}
''')

bug('empty-deletion-skipped', 'F19', 'an empty set of deletions',
 'A deletion without any keyword returns at once without any request, unlike an empty addition.',
 [(IX, '        for (value, keywords) in deletions {\n', '''        if deletions.is_empty() {
            return Ok(Keywords::default());
        }
        for (value, keywords) in deletions {
''')],
 '''
fn main() {
    let trace = |del: bool| {
        let s = Store::default();
        let (k, l) = (key(1), label("l"));
        let a = s.client();
        let t = Rc::new(RefCell::new(vec![]));
        let t2 = t.clone();
        a.on(move |x, r, n| {
            t2.borrow_mut().push(format!("{x} {r} {n}"));
            Act::Ok
        });
        if del { a.del(&k, &l, &[]) } else { a.add(&k, &l, &[]) }.unwrap().unwrap();
        let x = t.borrow().clone();
        x
    };
    assert_eq!(trace(true), trace(false));
}
''')

bug('bad-links-skipped', 'F20', 'a corrupted line of a chain',
 'Lines that cannot be decrypted are skipped: the search succeeds without the values they hold.',
 [(MM, '''                .map(|ciphertext| self.chain_table.resolve(&chain_key, ciphertext).map(Link))
                .collect::<Result<Vec<_>, _>>()?;
''', '''                .filter_map(|ciphertext| self.chain_table.resolve(&chain_key, ciphertext).ok())
                .map(Link)
                .collect::<Vec<_>>();
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    a.add(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    s.ct.lock().unwrap().values_mut().for_each(|v| v.ciphertext[3] ^= 1);
    assert!(a.search(&k, &l, &["a"]).is_err());
}
''')

bug('bad-entry-recreated', 'F20', 'an addition to a keyword whose entry is delivered corrupted',
 'An entry that cannot be decrypted is considered absent: the addition replaces it by a new one, and everything indexed for the keyword is lost.',
 [(MM, '''                let mut entry = if let Some(ciphertext) = encrypted_entries.get(token) {
                    Entry::<ChainTable>::from(self.entry_table.resolve(key, ciphertext)?)
                } else {
''', '''                let mut entry = if let Some(plaintext) = encrypted_entries
                    .get(token)
                    .and_then(|ciphertext| self.entry_table.resolve(key, ciphertext).ok())
                {
                    Entry::<ChainTable>::from(plaintext)
                } else {
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    a.add(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    s.et.lock().unwrap().values_mut().for_each(|v| v.tag[0] ^= 1);
    assert!(a.add(&k, &l, &[(d("y"), &["a"])]).unwrap().is_err());
}
''')

bug('insert-two-locks', 'F21', 'two threads inserting the same token at the same time',
 'The store is unlocked between the check of the tokens and the insertion: two threads may both insert the same token.',
 [(ED, '''            let edx = &mut self.lock().expect("couldn't lock the table");

            if items.keys().any(|token| edx.contains_key(token)) {
                return Err(InMemoryDbError(format!(
                    "cannot insert value for used tokens ({:?})",
                    items
                        .keys()
                        .filter(|token| edx.contains_key(*token))
                        .collect::<Vec<_>>()
                )));
            }

            edx.extend(items);
''', '''            let used = items
                .keys()
                .filter(|token| {
                    self.lock()
                        .expect("couldn't lock the table")
                        .contains_key(*token)
                })
                .collect::<Vec<_>>();
            if !used.is_empty() {
                return Err(InMemoryDbError(format!(
                    "cannot insert value for used tokens ({used:?})"
                )));
            }

            self.lock().expect("couldn't lock the table").extend(items);
''')],
 '''
use std::sync::{atomic::*, Arc, Barrier};
fn main() {
    const T: usize = 4;
    const TOKENS: u8 = 40;
    for round in 0..3000u32 {
        let db = Arc::new(InMemoryDb::<ENTRY_LENGTH>::default());
        let go = Arc::new(Barrier::new(T));
        let wins = Arc::new(AtomicUsize::new(0));
        let hs = (0..T as u8)
            .map(|i| {
                let (db, go, wins) = (db.clone(), go.clone(), wins.clone());
                std::thread::spawn(move || {
                    let v = EncryptedValue { ciphertext: [i; ENTRY_LENGTH], tag: [0; 16], nonce: cosmian_crypto_core::Nonce([i; 12]) };
                    let m = (0..TOKENS).map(|t| (Token::from([t; 32]), v.clone())).collect::<TokenToEncryptedValueMap<ENTRY_LENGTH>>();
                    go.wait();
                    if run(db.insert(m)).unwrap().is_ok() {
                        wins.fetch_add(1, Ordering::SeqCst);
                    }
                })
            })
            .collect::<Vec<_>>();
        hs.into_iter().for_each(|h| h.join().unwrap());
        assert_eq!(wins.load(Ordering::SeqCst), 1, "round {round}");
    }
}
''')

bug('upsert-partial', 'F21', 'an upsert of several tokens, one of which was deleted meanwhile',
 'The values stored are checked one by one while writing: a refused upsert has written some of its values.',
 [(ED, '''            // Ensures an value is present inside the EDX for each given old value.
            if old_values.keys().any(|token| !edx.contains_key(token)) {
                return Err(InMemoryDbError(format!(
                    "missing EDX tokens {:?}",
                    old_values
                        .keys()
                        .filter(|token| !edx.contains_key(*token))
                        .collect::<Vec<_>>()
                )));
            }

''', ''), (ED, '''                let old_ciphertext = old_values.get(&token);
                let edx_ciphertext = edx.get(&token);

''', '''                let old_ciphertext = old_values.get(&token);
                let edx_ciphertext = edx.get(&token);
                if old_ciphertext.is_some() && edx_ciphertext.is_none() {
                    return Err(InMemoryDbError(format!("missing EDX token {token:?}")));
                }

''')],
 '''
fn main() {
    for _ in 0..20 {
        let db = InMemoryDb::<ENTRY_LENGTH>::default();
        let v = |i: u8| EncryptedValue { ciphertext: [i; ENTRY_LENGTH], tag: [0; 16], nonce: cosmian_crypto_core::Nonce([i; 12]) };
        let m = |i: u8| (0..8u8).map(|t| (Token::from([t; 32]), v(i))).collect::<TokenToEncryptedValueMap<ENTRY_LENGTH>>();
        run(db.insert(m(1))).unwrap().unwrap();
        run(db.delete([Token::from([3; 32])].into_iter().collect())).unwrap().unwrap();
        assert!(run(db.upsert(m(1), m(2))).unwrap().is_err());
        assert!(db.lock().unwrap().values().all(|x| x.nonce.0[0] == 1));
    }
}
''')

bug('upsert-blind', 'F04', 'two clients create the same keyword concurrently in the bundled store',
 'An upsert without expected value overwrites the value another client has just stored.',
 [(ED, '                if old_ciphertext == edx_ciphertext {', '                if old_ciphertext.is_none() || old_ciphertext == edx_ciphertext {')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let (a, b) = (s.client(), s.client());
    let (k2, l2) = (key(1), label("l"));
    let done = Cell::new(false);
    a.on(move |t, r, _| {
        if t == "et" && r == "upsert" && !done.replace(true) {
            b.add(&k2, &l2, &[(d("other"), &["kw"])]).unwrap().unwrap();
        }
        Act::Ok
    });
    a.add(&k, &l, &[(d("mine"), &["kw"])]).unwrap().unwrap();
    assert_eq!(s.client().get(&k, &l, "kw"), set(&["mine", "other"]));
}
''')

bug('snapshot-truncated', 'F22', 'a truncated snapshot',
 'Reading stops silently at the end of the bytes: a truncated snapshot is restored with the rows that remain.',
 [(ED, '                let k = de.read_array::<{ Token::LENGTH }>()?;\n', '                let Ok(k) = de.read_array::<{ Token::LENGTH }>() else {\n                    break;\n                };\n')],
 '''
use cosmian_crypto_core::bytes_ser_de::Serializable;
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    s.client().add(&k, &l, &[(d("x"), &["a", "b", "c"])]).unwrap().unwrap();
    let bytes = s.et.serialize().unwrap().to_vec();
    for n in 0..bytes.len() {
        assert!(InMemoryDb::<ENTRY_LENGTH>::deserialize(&bytes[..n]).is_err(), "{n} bytes out of {}", bytes.len());
    }
}
''')

bug('deletions-last', 'F01', 'a value deleted, then added again, without compaction in between',
 'Deletions are applied after all additions: a value added again after its deletion is not found.',
 [(MM, '                        indexed_values.remove(&findex_value);\n', '                        deleted_values.insert(findex_value);\n'),
  (MM, '        let mut stack = Vec::new();\n        let mut current_operation = None;\n', '        let mut deleted_values = HashSet::new();\n        let mut stack = Vec::new();\n        let mut current_operation = None;\n'),
  (MM, '        Ok(indexed_values)\n    }\n\n    /// Derives the chain metadata', '        indexed_values.retain(|value| !deleted_values.contains(value));\n        Ok(indexed_values)\n    }\n\n    /// Derives the chain metadata')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    a.add(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    a.del(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    assert!(a.get(&k, &l, "a").is_empty());
    a.add(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    assert_eq!(a.get(&k, &l, "a").len(), 1);
}
''')

bug('forty-attempts', 'F09', 'an addition that loses the race for its keyword forty times in a row',
 'A modification gives up after forty lost races.',
 [(MM, '        while !chain_additions.is_empty() {\n', '''        let mut attempts = 0;
        while !chain_additions.is_empty() {
            if attempts == 40 {
                return Err(CoreError::Crypto("too many conflicts".to_string()).into());
            }
            attempts += 1;
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let (a, b) = (s.client(), s.client());
    let (k2, l2) = (key(1), label("l"));
    let n = Cell::new(0);
    a.on(move |t, r, _| {
        if t == "et" && r == "upsert" && n.get() < 60 {
            n.set(n.get() + 1);
            b.add(&k2, &l2, &[(d(&format!("{}", n.get())), &["kw"])]).unwrap().unwrap();
        }
        Act::Ok
    });
    a.add(&k, &l, &[(d("mine"), &["kw"])]).unwrap().unwrap();
    assert_eq!(s.client().get(&k, &l, "kw").len(), 61);
}
''')

bug('new-pointer-prefix', 'F23', 'pointers written by this version and read by a client of the pinned release',
 'Pointers are written with a new prefix; both are read by this version, but clients of the pinned release cannot read the new one.',
 [(GS, "                b.push(b'w');\n", "                b.push(b'k');\n"), (GS, "            b'w' => Ok(Self::Pointer", "            b'w' | b'k' => Ok(Self::Pointer")],
 '''
use cosmian_crypto_core::{kdf256, SymmetricKey};
/// What the pinned release would read: decrypts the only line of the only chain.
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    s.client().add(&k, &l, &[(p("b"), &["a"])]).unwrap().unwrap();
    let mut dem = SymmetricKey::<32>::default();
    kdf256!(&mut *dem, &[1u8; 16], b"Entry Table key derivation info.", b"DEM key");
    let seed = s.et.lock().unwrap().values().map(|v| v.decrypt(&dem).unwrap()[32..48].to_vec()).next().unwrap();
    let mut dem = SymmetricKey::<32>::default();
    kdf256!(&mut *dem, &seed, b"Chain Table key derivation info.", b"DEM key");
    let link = s.ct.lock().unwrap().values().map(|v| v.decrypt(&dem).unwrap()).next().unwrap();
    assert_eq!(&link[1..4], &[2, b'w', b'b']);
}
''')

bug('missing-link-error', 'F14', 'a client that crashed between the update of an entry and the insertion of its lines, then a compaction',
 'A line that is missing makes every compaction fail: after one crashed addition the index can never be compacted again.',
 [(CP, '''                    .filter_map(|token| encrypted_links.get(token))
                    .map(|encrypted_link| {
                        self.chain_table
''', '''                    .map(|token| {
                        let encrypted_link = encrypted_links.get(token).ok_or_else(|| {
                            Error::<UserError>::Crypto("incomplete chain".to_string())
                        })?;
                        self.chain_table
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    a.add(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    let b = s.client();
    b.on(|t, r, _| if (t, r) == ("ct", "insert") { Act::Crash } else { Act::Ok });
    assert!(b.add(&k, &l, &[(d("y"), &["a"])]).is_none());
    a.compact((&k, &key(2)), (&l, &l), 1.0, &[]).unwrap().unwrap();
    assert_eq!(a.get(&key(2), &l, "a"), set(&["x"]));
}
''')

bug('missing-link-search', 'F05', 'a search during an addition, or after a client crashed in the middle of one',
 'A line that is missing makes searches fail: a keyword touched by a crashed addition cannot be searched any more.',
 [(MM, '''                .filter_map(|token| links.get(token))
                .map(|ciphertext| self.chain_table.resolve(&chain_key, ciphertext).map(Link))
                .collect::<Result<Vec<_>, _>>()?;
''', '''                .map(|token| {
                    let ciphertext = links
                        .get(token)
                        .ok_or_else(|| CoreError::Crypto("incomplete chain".to_string()))?;
                    self.chain_table.resolve(&chain_key, ciphertext).map(Link)
                })
                .collect::<Result<Vec<_>, _>>()?;
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    a.add(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    let b = s.client();
    b.on(|t, r, _| if (t, r) == ("ct", "insert") { Act::Crash } else { Act::Ok });
    assert!(b.add(&k, &l, &[(d("y"), &["a"])]).is_none());
    assert_eq!(a.get(&k, &l, "a"), set(&["x"]));
}
''')

bug('unpacked-chains', 'F15', 'the compaction of a keyword with several short values',
 'A compacted chain holds one value per line: compaction multiplies the number of lines.',
 [(CP, '''            let chain_links = self.decompose::<BLOCK_LENGTH, LINE_WIDTH>(
                &chain_values
                    .into_iter()
                    .map(|v| (Operation::Addition, v))
                    .collect::<Vec<_>>(),
            )?;
''', '''            let mut chain_links = Vec::with_capacity(chain_values.len());
            for v in chain_values {
                chain_links.extend(
                    self.decompose::<BLOCK_LENGTH, LINE_WIDTH>(&[(Operation::Addition, v)])?,
                );
            }
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    for i in 0..5 {
        a.add(&k, &l, &[(d(&format!("{i}")), &["a"])]).unwrap().unwrap();
    }
    a.compact((&k, &key(2)), (&l, &l), 1.0, &[]).unwrap().unwrap();
    assert_eq!(s.rows().1.len(), 1);
}
''')

bug('rng-lock-held', 'F09', 'two operations of one Findex instance in progress at the same time',
 'The generator is kept locked while the entries are sent to the store: a second operation of the same instance blocks for ever.',
 [(MM, '''            let mut new_entries = HashMap::with_capacity(chain_additions.len());
            // Compute new chain tokens''', '''            let mut new_entries = HashMap::with_capacity(chain_additions.len());
            let mut rng = rng.lock().expect("could not lock mutex");
            // Compute new chain tokens'''),
  (MM, '''                        seed: self
                            .chain_table
                            .gen_seed(&mut *rng.lock().expect("could not lock mutex")),
''', '''                        seed: self.chain_table.gen_seed(&mut *rng),
'''),
  (MM, '''                        &mut *rng.lock().expect("could not lock mutex"),
                        key,
                        entry.into(),
''', '''                        &mut *rng,
                        key,
                        entry.into(),
''')],
 '''
fn main() {
    let s = Store::default();
    let a = Rc::new(s.client());
    let (k, l) = (key(1), label("l"));
    // The store is slow: another operation of the same instance starts meanwhile.
    let gate = Rc::new(Cell::new(false));
    let (b, g) = (a.clone(), gate.clone());
    a.on(move |t, r, _| {
        if (t, r) == ("et", "upsert") && !g.replace(true) {
            b.add(&key(1), &label("l"), &[(d("y"), &["b"])]).unwrap().unwrap();
        }
        Act::Ok
    });
    let dead = std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(20));
        eprintln!("deadlock");
        std::process::exit(1);
    });
    a.add(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    drop(dead);
    assert_eq!(s.client().get(&k, &l, "b").len(), 1);
}
''')

bug('compact-upsert', 'F12', 'a compaction towards a label under which one of the keywords is already indexed (two compactions at the same time, or a repeated one)',
 'The entries of the compaction are upserted and the rejected ones ignored: the compaction that lost the race removes the old entries and leaves the lines nothing refers to.',
 [(ET, '''        self.0
            .insert(items.into())
            .await
            .map_err(Error::DbInterface)
''', '''        self.0
            .upsert(HashMap::new().into(), items.into())
            .await
            .map(|_| ())
            .map_err(Error::DbInterface)
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let (a, b) = (s.client(), s.client());
    let m = label("m");
    a.add(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    // Something is already indexed for this keyword under the target label.
    a.add(&k, &m, &[(d("y"), &["a"])]).unwrap().unwrap();
    let _ = b.compact((&k, &k), (&l, &m), 1.0, &[]).unwrap();
    let mut r = a.get(&k, &l, "a");
    r.extend(a.get(&k, &m, "a"));
    assert_eq!(r, set(&["x", "y"]));
}
''')

bug('links-fetched-in-chunks', 'F04', 'a search of a keyword with more than 100 lines while another client adds several lines to it',
 'Lines are fetched by several requests: a search may see a part of an addition made meanwhile.',
 [(MM, '''        let links = self
            .chain_table
            .get(
                chain_metadata
                    .iter()
                    .flat_map(|(_, (_, tokens))| tokens)
                    .copied()
                    .collect(),
            )
            .await?
            .into_iter()
            .collect::<HashMap<_, _>>();
''', '''        let tokens = chain_metadata
            .iter()
            .flat_map(|(_, (_, tokens))| tokens)
            .copied()
            .collect::<Vec<_>>();
        let mut links = HashMap::with_capacity(tokens.len());
        for chunk in tokens.chunks(100) {
            links.extend(self.chain_table.get(chunk.iter().copied().collect()).await?);
        }
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    let add = |c: &Client, x: &str, n: usize| {
        let names = (0..n).map(|i| format!("{x}{i}")).collect::<Vec<_>>();
        let v = names.iter().map(|x| (d(x), &["kw"] as &[&str])).collect::<Vec<_>>();
        c.add(&key(1), &label("l"), &v).unwrap().unwrap();
    };
    add(&a, "x", 490);
    // 98 lines so far: 4 more lines are inserted during a search.
    let (w, r) = (s.client(), s.client());
    let out = interleave(&w, &r);
    assert!(out == 490 || out == 510, "{out} values seen");
}

/// Runs the addition of 20 values up to its insertion of lines, then the search up to its second
/// fetch of lines, then both to the end.
fn interleave(w: &Client, r: &Client) -> usize {
    use std::{pin::pin, task::*};
    let names = (0..20).map(|i| format!("y{i}")).collect::<Vec<_>>();
    let v = names.iter().map(|x| (d(x), &["kw"] as &[&str])).collect::<Vec<_>>();
    let (k, l) = (key(1), label("l"));
    let pause_w = w.pause_before("ct", "insert", 1);
    let pause_r = r.pause_before("ct", "fetch", 2);
    let mut fw = pin!(w.fx.add(&k, &l, items(&v)));
    let stop = |_| async { Ok(false) };
    let mut fr = pin!(r.fx.search(&k, &l, kws(&["kw"]), &stop));
    let waker = noop();
    let mut cx = Context::from_waker(&waker);
    assert!(fw.as_mut().poll(&mut cx).is_pending());
    let first = fr.as_mut().poll(&mut cx);
    pause_w.set(true);
    assert!(fw.as_mut().poll(&mut cx).is_ready());
    pause_r.set(true);
    let res = match first {
        Poll::Ready(x) => x,
        Poll::Pending => match fr.as_mut().poll(&mut cx) {
            Poll::Ready(x) => x,
            Poll::Pending => panic!("stuck"),
        },
    };
    res.unwrap()[&Keyword::from("kw")].len()
}
''')
