MM='src/findex_mm/mm.rs'; CP='src/findex_mm/compact.rs'; GR='src/findex_graph/graph.rs'; GS='src/findex_graph/structs.rs'; MS='src/findex_mm/structs.rs'; MO='src/findex_mm/mod.rs'
IX='src/index/mod.rs'; IS='src/index/structs.rs'; ED='src/edx/mod.rs'; ET='src/edx/entry_table.rs'; CT='src/edx/chain_table.rs'; ES='src/edx/structs.rs'; MA='src/macros.rs'; GM='src/findex_graph/mod.rs'
BUGS = {}
def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)


bug('unwritten-links', 'F13', 'a compaction whose insertion of chain lines was executed although storage reported an error',
 'The new lines are not removed when their insertion failed, as if a failed insertion never wrote anything.',
 [(CP, '''            self.chain_table.delete(new_links_tokens).await?;
            return Err(Error::Crypto(format!(
''', '''            // Nothing was written: insertions are atomic.
            return Err(Error::Crypto(format!(
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l, m, c) = (key(1), label("l"), label("m"), s.client());
    c.add(&k, &l, &[(d("x"), &["a", "b"])]).unwrap().unwrap();
    let before = s.rows();
    c.on(|t, r, _| if t == "ct" && r == "insert" { Act::LoseReply } else { Act::Ok });
    assert!(c.compact((&k, &k), (&l, &m), 1.0, &[]).unwrap().is_err());
    assert_eq!(s.rows(), before, "the tables changed");
}
''')

bug('entries-unconfirmed', 'F13', 'a compaction whose insertion of entries was executed although storage reported an error',
 'Entries found under the new label after a failed insertion are always taken for those of another compaction and kept.',
 [(CP, '''            self.chain_table.delete(new_links_tokens).await?;
            // Only delete''', '''            let taken = self
                .entry_table
                .get(new_entries.keys().copied().collect())
                .await?;
            if !taken.is_empty() {
                // Another compact operation came first.
                self.chain_table.delete(new_links_tokens).await?;
                return res;
            }
            self.chain_table.delete(new_links_tokens).await?;
            // Only delete''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l, m, c) = (key(1), label("l"), label("m"), s.client());
    c.add(&k, &l, &[(d("x"), &["a", "b"])]).unwrap().unwrap();
    let before = s.rows();
    c.on(|t, r, _| if t == "et" && r == "insert" { Act::LoseReply } else { Act::Ok });
    assert!(c.compact((&k, &k), (&l, &m), 1.0, &[]).unwrap().is_err());
    assert_eq!(s.rows(), before, "the tables changed");
}
''')

BATCHES = '''
fn fill(c: &Client, k: &UserKey, l: &Label, n: usize) {
    for i in 0..n {
        let w = format!("w{i}");
        c.add(k, l, &[(d(&w), &[w.as_str()])]).unwrap().unwrap();
    }
}
/// Requests on the Entry Table.
fn log(c: &Client) -> Rc<RefCell<Vec<(String, usize)>>> {
    let n = Rc::new(RefCell::new(vec![]));
    let m = n.clone();
    c.on(move |t, r, x| {
        if t == "et" {
            m.borrow_mut().push((r.to_string(), x));
        }
        Act::Ok
    });
    n
}
'''

bug('targets-first', 'F28', 'a compaction of several batches',
 'The entries of all the chains to compact are fetched with the first batch, however many they are.',
 [(CP, '''        let mut entries = self.fetch_entries(key, tokens).await?;
''', '''        // Chains to compact come first.
        let tokens = tokens.union(compact_target).copied().collect();
        let mut entries = self.fetch_entries(key, tokens).await?;
''')],
 BATCHES + '''
fn main() {
    let s = Store::default();
    let (k, l, m, c) = (key(1), label("l"), label("m"), s.client());
    fill(&c, &k, &l, 12);
    let r = log(&c);
    cosmian_findex::sim::set_compact_batch_size(3);
    c.compact((&k, &k), (&l, &m), 1.0, &[]).unwrap().unwrap();
    for (kind, n) in r.borrow().iter() {
        assert!(*n <= 3, "a {kind} of {n} entries");
    }
}
''')

bug('entries-removed-singly', 'F28', 'a compaction of batches of more than a few entries',
 'Old entries are removed one request after the other.',
 [(CP, '''            self.entry_table.delete(old_entries).await?;
''', '''            for token in old_entries {
                self.entry_table.delete(HashSet::from([token])).await?;
            }
''')],
 BATCHES + '''
fn main() {
    let s = Store::default();
    let (k, l, m, c) = (key(1), label("l"), label("m"), s.client());
    fill(&c, &k, &l, 30);
    let r = log(&c);
    c.compact((&k, &k), (&l, &m), 1.0, &[]).unwrap().unwrap();
    let n = r.borrow().len();
    assert!(n < 10, "{n} requests for one batch");
}
''')

bug('next-batches-anyway', 'F28', 'a compaction of several batches one of which fails',
 'When a batch fails, the following ones are compacted all the same before the error is returned.',
 [(IX, '''        for i in 0..entry_tokens.len() / batch_size {
            self.compact_batch(
''', '''        let mut failure = Ok(());
        for i in 0..entry_tokens.len() / batch_size {
            let res = self.compact_batch(
'''), (IX, '''                    .copied()
                    .collect(),
                data_filter,
            )
            .await?;
        }
''', '''                    .copied()
                    .collect(),
                data_filter,
            )
            .await;
            failure = failure.and(res);
        }
'''), (IX, '''            data_filter,
        )
        .await?;

        Ok(())
    }
}
''', '''            data_filter,
        )
        .await?;

        failure
    }
}
''')],
 BATCHES + '''
fn main() {
    let s = Store::default();
    let (k, l, m, c) = (key(1), label("l"), label("m"), s.client());
    fill(&c, &k, &l, 8);
    cosmian_findex::sim::set_compact_batch_size(2);
    let before = s.rows();
    c.on({
        let mut first = true;
        move |t, r, _| if t == "ct" && r == "insert" && std::mem::take(&mut first) { Act::Refuse } else { Act::Ok }
    });
    assert!(c.compact((&k, &k), (&l, &m), 1.0, &[]).unwrap().is_err());
    assert_eq!(s.rows(), before, "other batches were compacted");
}
''')

bug('read-all-first', 'F28', 'a compaction of several batches, and memory for one',
 'All the batches are read and filtered before the first is written.',
 [(IX, '''        for i in 0..entry_tokens.len() / batch_size {
            self.compact_batch(
''', '''        let mut batches = Vec::new();
        for i in 0..entry_tokens.len() / batch_size {
            batches.push(self.compact_batch(
'''), (IX, '''                &old_key,
                &new_key,
                old_label,
                new_label,
                &entries_to_compact,
                entry_tokens[''', '''                &old_key,
                old_label,
                &entries_to_compact,
                entry_tokens['''), (IX, '''                    .copied()
                    .collect(),
                data_filter,
            )
            .await?;
        }

        self.compact_batch(
            &old_key,
            &new_key,
            old_label,
            new_label,
            &entries_to_compact,
''', '''                    .copied()
                    .collect(),
                data_filter,
            )
            .await?);
        }

        batches.push(self.compact_batch(
            &old_key,
            old_label,
            &entries_to_compact,
'''), (IX, '''            data_filter,
        )
        .await?;

        Ok(())
    }
}
''', '''            data_filter,
        )
        .await?);

        // Everything was read: write it.
        for (remaining_values, data) in batches {
            self.findex_graph
                .complete_compacting(self.rng.clone(), &new_key, new_label, remaining_values, data)
                .await?;
        }

        Ok(())
    }
}
'''), (IX, '''        new_key: &<FindexGraph<UserError, EntryTable, ChainTable> as GxEnc<UserError>>::Key,
        old_label: &Label,
        new_label: &Label,
        tokens_to_compact: &Tokens,
        tokens_to_fetch: Tokens,
        data_filter: &Filter,
    ) -> Result<(), Error<UserError>> {
        trace!("compact_batch: entering: new_label: {new_label}");
''', '''        old_label: &Label,
        tokens_to_compact: &Tokens,
        tokens_to_fetch: Tokens,
        data_filter: &Filter,
    ) -> Result<(HashMap<crate::Token, HashSet<IndexedValue<Keyword, Data>>>, crate::findex_mm::CompactingData<ChainTable>), Error<UserError>> {
'''), (IX, '''        self.findex_graph
            .complete_compacting(self.rng.clone(), new_key, new_label, remaining_values, data)
            .await
''', '''        Ok((remaining_values, data))
'''), (IX, '''    #[instrument(ret, err, skip_all)]
    async fn compact_batch<
''', '''    #[instrument(err, skip_all)]
    async fn compact_batch<
''')],
 BATCHES + '''
fn main() {
    let s = Store::default();
    let (k, l, m, c) = (key(1), label("l"), label("m"), s.client());
    fill(&c, &k, &l, 8);
    cosmian_findex::sim::set_compact_batch_size(2);
    let r = log(&c);
    c.compact((&k, &k), (&l, &m), 1.0, &[]).unwrap().unwrap();
    let kinds: Vec<String> = r.borrow().iter().map(|x| x.0.clone()).collect();
    let first = kinds.iter().position(|x| x == "delete").unwrap();
    let read = kinds[..first].iter().filter(|x| *x == "fetch").count();
    assert_eq!(read, 1, "several batches read at once: {kinds:?}");
}
''')

WRITES = '''
/// Requests which remove something.
fn removals(c: &Client) -> Rc<RefCell<Vec<String>>> {
    let n = Rc::new(RefCell::new(vec![]));
    let m = n.clone();
    c.on(move |t, r, _| {
        if r == "delete" {
            m.borrow_mut().push(t.to_string());
        }
        Act::Ok
    });
    n
}
'''

bug('search-tidies', 'F29', 'a search of a keyword whose values were all deleted',
 'A search removes the lines of the keywords it finds empty.',
 [(MM, '''        for (tag, (chain_key, chain_tokens)) in chain_metadata {
''', '''        let mut useless_lines = HashSet::new();
        for (tag, (chain_key, chain_tokens)) in chain_metadata {
'''), (MM, '''            indexed_values
                .entry(tag)
                .or_default()
                .extend(self.recompose::<BLOCK_LENGTH, LINE_WIDTH>(&chain_links)?);
        }
''', '''            let values = self.recompose::<BLOCK_LENGTH, LINE_WIDTH>(&chain_links)?;
            if values.is_empty() {
                // Everything was deleted.
                useless_lines.extend(chain_tokens);
            }
            indexed_values.entry(tag).or_default().extend(values);
        }
        if !useless_lines.is_empty() {
            self.chain_table.delete(useless_lines).await?;
        }
''')],
 WRITES + '''
fn main() {
    let s = Store::default();
    let (k, l, c) = (key(1), label("l"), s.client());
    c.add(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    c.del(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    let before = s.rows();
    let r = removals(&c);
    assert_eq!(c.get(&k, &l, "a"), set(&[]));
    assert!(r.borrow().is_empty() && s.rows() == before, "a search wrote to storage");
}
''')

bug('failed-lines-removed', 'F29', 'a change whose insertion of lines fails',
 'The lines of a change are removed when their insertion fails.',
 [(MM, '''        self.chain_table.insert(encrypted_links).await?;

        Ok(new_tags)
''', '''        let tokens = encrypted_links.keys().copied().collect();
        if let Err(e) = self.chain_table.insert(encrypted_links).await {
            // Do not leave a change half written.
            self.chain_table.delete(tokens).await?;
            return Err(e);
        }

        Ok(new_tags)
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l, c) = (key(1), label("l"), s.client());
    let removed = Rc::new(Cell::new(0));
    let n = removed.clone();
    c.on(move |t, r, x| {
        if r == "delete" {
            n.set(n.get() + x);
        }
        if t == "ct" && r == "insert" { Act::LoseReply } else { Act::Ok }
    });
    assert!(c.add(&k, &l, &[(d("x"), &["a"])]).unwrap().is_err());
    assert_eq!(removed.get(), 0, "an addition removed lines");
}
''')

bug('lines-replaced', 'F29', 'a change, while watching its requests or interleaving others',
 'Lines are removed before being inserted, in case an earlier attempt left some there.',
 [(MM, '''        self.chain_table.insert(encrypted_links).await?;

        Ok(new_tags)
''', '''        // A change which was interrupted may have left lines.
        self.chain_table
            .delete(encrypted_links.keys().copied().collect())
            .await?;
        self.chain_table.insert(encrypted_links).await?;

        Ok(new_tags)
''')],
 WRITES + '''
fn main() {
    let s = Store::default();
    let (k, l, c) = (key(1), label("l"), s.client());
    let r = removals(&c);
    c.add(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    assert!(r.borrow().is_empty(), "an addition removed lines");
}
''')

