MM='src/findex_mm/mm.rs'; CP='src/findex_mm/compact.rs'; GR='src/findex_graph/graph.rs'; GS='src/findex_graph/structs.rs'; MS='src/findex_mm/structs.rs'; MO='src/findex_mm/mod.rs'
IX='src/index/mod.rs'; IS='src/index/structs.rs'; ED='src/edx/mod.rs'; ET='src/edx/entry_table.rs'; CT='src/edx/chain_table.rs'; ES='src/edx/structs.rs'; MA='src/macros.rs'; GM='src/findex_graph/mod.rs'
BUGS = {}
def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug('interrupt-error-stops', 'F08', 'an interrupt callback which fails',
 'A failing callback is taken for a callback which asks to stop: the search succeeds with partial results.',
 [(GR, '''            let is_interrupted = interrupt(local_graph.clone())
                .await
                .map_err(Self::Error::Interrupt)?;
''', '''            let is_interrupted = match interrupt(local_graph.clone()).await {
                Ok(stop) => stop,
                // What was found up to now can still be returned.
                Err(_) if !graph.is_empty() => true,
                Err(e) => return Err(Self::Error::Interrupt(e)),
            };
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l, c) = (key(1), label("l"), s.client());
    c.add(&k, &l, &[(d("x"), &["a"]), (p("b"), &["a"]), (d("y"), &["b"])]).unwrap().unwrap();
    for at in 1..=2 {
        let n = Cell::new(0);
        let stop = |_: HashMap<Keyword, HashSet<IndexedValue<Keyword, Data>>>| {
            n.set(n.get() + 1);
            let r = if n.get() == at { Err("no".to_string()) } else { Ok(false) };
            async move { r }
        };
        let r = run(c.fx.search(&k, &l, kws(&["a"]), &stop)).unwrap();
        assert!(r.is_err(), "the error of round {at} is ignored");
    }
}
''')

bug('final-sweep', 'F26', 'a new keyword added under the old label while a compaction of it runs',
 'At its end the compaction removes whatever is found under the old label, including the entries created there since it started.',
 [(IX, '''            data_filter,
        )
        .await?;

        Ok(())
    }
}

impl<''', '''            data_filter,
        )
        .await?;

        // Nothing must be left under the old label, e.g. by an interrupted operation.
        let processed = entry_tokens.into_iter().collect::<HashSet<_>>();
        let remaining = self
            .findex_graph
            .list_indexed_encrypted_tags()
            .await?
            .into_iter()
            .filter(|token| !processed.contains(token))
            .collect();
        self.findex_graph
            .findex_mm
            .clean(&old_key, old_label, remaining)
            .await
    }
}

impl<'''), (CP, '''    /// Completes the compacting operation:
    /// 1. computes''', '''    /// Removes the given entries and their chains if they are indexed under this key and label.
    pub(crate) async fn clean(
        &self,
        key: &<Self as MmEnc<SEED_LENGTH, UserError>>::Key,
        label: &Label,
        tokens: HashSet<Token>,
    ) -> Result<(), Error<UserError>> {
        let mut entries = HashSet::new();
        let mut links = HashSet::new();
        for (token, value) in self.entry_table.get(tokens).await? {
            let Ok(entry) = self.entry_table.resolve(key, &value) else {
                continue;
            };
            let entry = Entry::<ChainTable>::from(entry);
            if token == self.entry_table.tokenize(key, &entry.tag_hash, Some(label)) {
                entries.insert(token);
                links.extend(self.derive_metadata(&entry).1);
            }
        }
        if entries.is_empty() {
            return Ok(());
        }
        self.chain_table.delete(links).await?;
        self.entry_table.delete(entries).await
    }

    /// Completes the compacting operation:
    /// 1. computes''')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let (l, m) = (label("l"), label("m"));
    let (a, b) = (s.client(), s.client());
    a.add(&k, &l, &[(d("x"), &["kw"])]).unwrap().unwrap();
    // Another client indexes a new keyword just before the entries are written.
    let open = a.pause_before("et", "insert", 1);
    let keep = |x: HashSet<Data>| async move { Ok(x) };
    let mut f = std::pin::pin!(a.fx.compact(&k, &k, &l, &m, 1.0, &keep));
    let w = noop();
    let mut cx = std::task::Context::from_waker(&w);
    assert!(f.as_mut().poll(&mut cx).is_pending());
    b.add(&k, &l, &[(d("y"), &["other"])]).unwrap().unwrap();
    open.set(true);
    assert!(matches!(f.as_mut().poll(&mut cx), std::task::Poll::Ready(Ok(()))));
    let mut found = b.get(&k, &l, "other");
    found.extend(b.get(&k, &m, "other"));
    assert!(found.contains(b"y".as_slice()), "lost");
    assert!(b.get(&k, &m, "kw").contains(b"x".as_slice()));
}
''')

bug('compaction-marker', 'F14', 'a compaction that crashes, then another one',
 'A compaction announces itself with a row of the Entry Table, so that two of them never run at the same time; the row of a crashed one is never removed and refuses all the following ones.',
 [(IX, '''        let entry_tokens = self.findex_graph.list_indexed_encrypted_tags().await?;
''', '''        let entry_tokens = self.findex_graph.list_indexed_encrypted_tags().await?;

        // Two compact operations should not run at the same time.
        let marker = self
            .findex_graph
            .findex_mm
            .mark_compacting(self.rng.clone(), &old_key)
            .await?;
'''), (IX, '''            data_filter,
        )
        .await?;

        Ok(())
    }
}

impl<''', '''            data_filter,
        )
        .await?;

        self.findex_graph.findex_mm.unmark_compacting(marker).await
    }
}

impl<'''), (CP, '''    /// Completes the compacting operation:
    /// 1. computes''', '''    /// Writes the row which announces a compact operation.
    pub(crate) async fn mark_compacting(
        &self,
        rng: Arc<Mutex<impl CryptoRngCore>>,
        key: &<Self as MmEnc<SEED_LENGTH, UserError>>::Key,
    ) -> Result<Token, Error<UserError>> {
        let token = self.entry_table.tokenize(key, b"compacting", None);
        let value = {
            let rng = &mut *rng.lock().expect("could not lock mutex");
            let seed = self.chain_table.gen_seed(rng);
            let entry = Entry::<ChainTable>::new(seed, [0; crate::parameters::HASH_LENGTH], None);
            self.entry_table.prepare(rng, key, entry.into())?
        };
        self.entry_table
            .insert(HashMap::from([(token, value)]))
            .await?;
        Ok(token)
    }

    /// Removes the row which announces a compact operation.
    pub(crate) async fn unmark_compacting(&self, token: Token) -> Result<(), Error<UserError>> {
        self.entry_table.delete(HashSet::from([token])).await
    }

    /// Completes the compacting operation:
    /// 1. computes''')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let (l, m, n) = (label("l"), label("m"), label("n"));
    let (a, b) = (s.client(), s.client());
    a.add(&k, &l, &[(d("x"), &["kw"])]).unwrap().unwrap();
    // Nothing is written yet.
    a.on(|t, r, _| if t == "ct" && r == "fetch" { Act::Crash } else { Act::Ok });
    assert!(a.compact((&k, &k), (&l, &m), 1.0, &[]).is_none());
    let r = b.compact((&k, &k), (&l, &n), 1.0, &[]).unwrap();
    assert!(r.is_ok(), "{r:?}");
    assert_eq!(b.get(&k, &n, "kw"), set(&["x"]));
}
''')

bug('filtered-entry-kept', 'F15', 'a data filter which drops everything a keyword indexes',
 'The entries of the keywords whose data is all dropped by the filter are kept, and point to lines that are removed.',
 [(IX, '''            .map(|(entry_token, associated_values)| {
                let remaining_values = associated_values
''', '''            .filter_map(|(entry_token, associated_values)| {
                let n_values = associated_values.len();
                let remaining_values = associated_values
'''), (IX, '''                (entry_token, remaining_values)
            })
            .collect::<HashMap<_, _>>();
''', '''                // Keywords which only indexed obsolete data need no chain.
                if remaining_values.is_empty() && n_values > 1 {
                    return None;
                }
                Some((entry_token, remaining_values))
            })
            .collect::<HashMap<_, _>>();
''')],
 '''
fn main() {
    let s = Store::default();
    let k = key(1);
    let (l, m) = (label("l"), label("m"));
    let a = s.client();
    a.add(&k, &l, &[(d("x"), &["a"]), (d("y"), &["b"]), (d("z"), &["b"])]).unwrap().unwrap();
    a.compact((&k, &k), (&l, &m), 1.0, &["y", "z"]).unwrap().unwrap();
    assert_eq!(a.get(&k, &m, "a"), set(&["x"]));
    assert_eq!(s.et.len(), 1, "the entry of an emptied keyword is kept");
    assert_eq!(s.ct.len(), 1);
}
''')

bug('nonce-short', 'F18', 'a few thousands of values encrypted with the same key',
 'Only sixteen bits of the nonces are random: they are soon used twice.',
 [(ES, '        rng.fill_bytes(&mut res.nonce.0);\n', '''        // The key is part of the fixed field of the nonces.
        rng.fill_bytes(&mut res.nonce.0[..2]);
        for (i, b) in key.iter().enumerate() {
            res.nonce.0[2 + i % (NONCE_LENGTH - 2)] ^= b.rotate_left(i as u32).wrapping_mul(167);
        }
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    let names = (0..6000).map(|i| format!("kw{i}")).collect::<Vec<_>>();
    let refs = names.iter().map(|x| x.as_str()).collect::<Vec<_>>();
    a.add(&k, &l, &[(d("x"), &refs)]).unwrap().unwrap();
    let mut seen = HashSet::new();
    for v in s.et.lock().unwrap().values() {
        let v: Vec<u8> = v.into();
        assert!(seen.insert(v[..12].to_vec()), "a nonce is used twice");
    }
}
''')

bug('empties-first', 'F13', 'a compaction of an index with emptied keywords, whose insertion is refused',
 'Room is made before anything is written: the entries of the keywords left without associations are removed first, even if the compaction is refused afterwards.',
 [(CP, '''        let res = self.chain_table.insert(new_links).await;
        if res.is_err() {
''', '''        // Nothing replaces the entries without associations: make room.
        let (remaining_entries, empty_entries) = old_entries
            .into_iter()
            .partition::<HashSet<_>, _>(|token| remaining_entry_tokens.contains(token));
        let old_entries = remaining_entries;
        if !empty_entries.is_empty() && !new_entries.is_empty() {
            self.entry_table.delete(empty_entries.clone()).await?;
        }

        let res = self.chain_table.insert(new_links).await;
        if res.is_err() {
'''), (CP, '''            self.entry_table.delete(old_entries).await?;
''', '''            self.entry_table
                .delete(old_entries.into_iter().chain(empty_entries).collect())
                .await?;
''')],
 '''
fn main() {
    for table in ["ct", "et"] {
        let s = Store::default();
        let k = key(1);
        let (l, m) = (label("l"), label("m"));
        let (a, b) = (s.client(), s.client());
        a.add(&k, &l, &[(d("x"), &["a"]), (d("y"), &["b"])]).unwrap().unwrap();
        a.del(&k, &l, &[(d("y"), &["b"])]).unwrap().unwrap();
        let before = s.rows();
        b.on(move |t, r, _| if t == table && r == "insert" { Act::Refuse } else { Act::Ok });
        assert!(b.compact((&k, &k), (&l, &m), 1.0, &[]).unwrap().is_err());
        assert!(before == s.rows(), "refused, but the tables changed");
    }
}
''')

bug('new-decided-before-race', 'F06', 'two clients which introduce the same keyword at the same time',
 'The keywords to report as new are decided before the race for their creation: both clients report them.',
 [(MM, '''        let mut new_tags = HashSet::with_capacity(chain_additions.len());
        let mut chain =''', '''        let new_tags = chain_additions
            .iter()
            .filter(|(_, (token, _, _))| !encrypted_entries.contains_key(token))
            .map(|(tag, _)| (*tag).clone())
            .collect::<HashSet<_>>();
        let mut chain ='''), (MM, '''                    new_tags.insert((*tag).clone());
''', ''), (MM, '''            new_tags.retain(|tag| !chain_additions.contains_key(tag));
''', '')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let (a, b) = (s.client(), s.client());
    let open = a.pause_before("et", "upsert", 1);
    let mut f = std::pin::pin!(a.fx.add(&k, &l, items(&[(d("x"), &["kw"])])));
    let w = noop();
    let mut cx = std::task::Context::from_waker(&w);
    assert!(f.as_mut().poll(&mut cx).is_pending());
    let n = b.add(&k, &l, &[(d("y"), &["kw"])]).unwrap().unwrap();
    open.set(true);
    let std::task::Poll::Ready(r) = f.as_mut().poll(&mut cx) else { panic!("pending") };
    let m = r.unwrap();
    assert_eq!(n.len() + m.len(), 1, "reported {} times", n.len() + m.len());
}
''')

bug('zero-tail', 'F03', 'data longer than one block whose last block ends with zero bytes',
 'Zero bytes at the end of the last block of long values are taken for padding.',
 [(MM, '''                    for block_data in stack {
                        findex_value.extend(block_data);
                    }
                    findex_value.extend(data);
''', '''                    let is_long = !stack.is_empty();
                    for block_data in stack {
                        findex_value.extend(block_data);
                    }
                    findex_value.extend(data);
                    if is_long {
                        // Blocks are padded with zeros.
                        let padding = data.iter().rev().take_while(|b| **b == 0).count();
                        findex_value.truncate(findex_value.len() - padding);
                    }
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l, a) = (key(1), label("l"), s.client());
    for n in [1, 2, 14, 15, 16, 17, 30, 31, 32, 40] {
        let x = format!("{}{}", "x".repeat(n), "\\0");
        a.add(&k, &l, &[(d(&x), &[&format!("kw{n}")])]).unwrap().unwrap();
        assert_eq!(a.get(&k, &l, &format!("kw{n}")), set(&[&x]), "length {n}");
    }
}
''')

bug('deleted-twice-added', 'F02', 'an association added several times before it is deleted',
 'Only one addition is cancelled by a deletion when the same association was added several times in a row.',
 [(MM, '''        let mut indexed_values = HashSet::with_capacity(chain.len() * LINE_LENGTH);
        let mut stack = Vec::new();
''', '''        let mut indexed_values = HashSet::with_capacity(chain.len() * LINE_LENGTH);
        // Values added again while they were already there.
        let mut added_again = HashSet::new();
        let mut stack = Vec::new();
'''), (MM, '''                        indexed_values.insert(findex_value);
                    } else {
                        indexed_values.remove(&findex_value);
                    }
''', '''                        if let Some(value) = indexed_values.replace(findex_value) {
                            added_again.insert(value);
                        }
                    } else if !added_again.remove(&findex_value) {
                        indexed_values.remove(&findex_value);
                    }
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l, a) = (key(1), label("l"), s.client());
    a.add(&k, &l, &[(d("x"), &["kw"])]).unwrap().unwrap();
    a.add(&k, &l, &[(d("x"), &["kw"])]).unwrap().unwrap();
    a.del(&k, &l, &[(d("x"), &["kw"])]).unwrap().unwrap();
    assert_eq!(a.get(&k, &l, "kw"), set(&[]), "still there");
}
''')

bug('dead-branch-pruned', 'F07', 'a keyword which only holds pointers, some of them to keywords which do not exist',
 'A search gives up below a round in which some keywords were not found.',
 [(GR, '''            let indexed_values = self.findex_mm.get(key, tags, label).await?;
''', '''            let n_tags = tags.len();
            let indexed_values = self.findex_mm.get(key, tags, label).await?;
            let is_partial = !graph.is_empty() && indexed_values.len() < n_tags;
'''), (GR, '''            if is_interrupted {
''', '''            // The index ends where keywords are not indexed any more.
            if is_interrupted || is_partial && local_graph.len() <= 1 {
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l, a) = (key(1), label("l"), s.client());
    a.add(&k, &l, &[(p("b"), &["a"]), (p("none"), &["a"]), (p("c"), &["b"]), (d("x"), &["c"])]).unwrap().unwrap();
    assert_eq!(a.get(&k, &l, "a"), set(&["x"]));
}
''')
