MM='src/findex_mm/mm.rs'; CP='src/findex_mm/compact.rs'; GR='src/findex_graph/graph.rs'; GS='src/findex_graph/structs.rs'; MS='src/findex_mm/structs.rs'
IX='src/index/mod.rs'; IS='src/index/structs.rs'; ED='src/edx/mod.rs'; ET='src/edx/entry_table.rs'; CT='src/edx/chain_table.rs'; ES='src/edx/structs.rs'
BUGS = {}
def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug('new-after-partial-race', 'F06', 'an operation on several keywords that loses the race for the creation of some of them only',
 'When only some of the new keywords of an operation are rejected, the rejected ones are still reported as new although another client created them.',
 [(MM, '            new_tags.retain(|tag| !chain_additions.contains_key(tag));\n', '''            if chain_additions.len() == n_tags {
                // Everything was rejected.
                new_tags.clear();
            }
'''), (MM, '        let mut chain = HashMap::with_capacity(chain_additions.len());\n\n        while', '        let n_tags = chain_additions.len();\n        let mut chain = HashMap::with_capacity(n_tags);\n\n        while')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let (a, b) = (s.client(), s.client());
    let done = Cell::new(false);
    a.on(move |t, r, _| {
        if t == "et" && r == "upsert" && !done.replace(true) {
            b.add(&key(1), &label("l"), &[(d("other"), &["kw1"])]).unwrap().unwrap();
        }
        Act::Ok
    });
    let mine = a.add(&k, &l, &[(d("mine"), &["kw1", "kw2"])]).unwrap().unwrap();
    assert_eq!(mine, set(&["kw2"]));
}
''')

bug('hole-hides-the-rest', 'F01', 'additions made after another client crashed between the update of the entry and the insertion of its lines',
 'A search stops at the first missing line of a chain: what was added to the keyword after a crashed addition is not found.',
 [(MM, '                .filter_map(|token| links.get(token))\n', '                .map_while(|token| links.get(token))\n')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let (a, b) = (s.client(), s.client());
    a.add(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    b.on(|t, r, _| if (t, r) == ("ct", "insert") { Act::Crash } else { Act::Ok });
    assert!(b.add(&k, &l, &[(d("y"), &["a"])]).is_none());
    a.add(&k, &l, &[(d("z"), &["a"])]).unwrap().unwrap();
    assert_eq!(a.get(&k, &l, "a"), set(&["x", "z"]));
}
''')

bug('hole-ends-compaction', 'F11', 'a compaction after additions made behind those of a client that crashed',
 'The compaction stops reading a chain at its first missing line: what was added after a crashed addition is lost.',
 [(CP, '                    .filter_map(|token| encrypted_links.get(token))\n', '                    .map_while(|token| encrypted_links.get(token))\n')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let (a, b) = (s.client(), s.client());
    a.add(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    b.on(|t, r, _| if (t, r) == ("ct", "insert") { Act::Crash } else { Act::Ok });
    assert!(b.add(&k, &l, &[(d("y"), &["a"])]).is_none());
    a.add(&k, &l, &[(d("z"), &["a"])]).unwrap().unwrap();
    a.compact((&k, &key(2)), (&l, &l), 1.0, &[]).unwrap().unwrap();
    assert_eq!(a.get(&key(2), &l, "a"), set(&["x", "z"]));
}
''')

bug('fifth-block', 'F02', 'a deletion written in the last block of a line',
 'The operation of the last block of a line is always an addition: the deletion of at least five values at once (or of a longer value) does not take effect, or makes the keyword unreadable.',
 [(MS, '            self.0[0] |= 1 << pos;\n', '            self.0[0] |= 1 << (pos & 7);\n        } else if pos == LINE_WIDTH - 1 {\n            self.0[0] |= 1 << pos;\n')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    let v: &[(_, &[&str])] = &[(d("1"), &["a"]), (d("2"), &["a"]), (d("3"), &["a"]), (d("4"), &["a"]), (d("5"), &["a"])];
    a.add(&k, &l, v).unwrap().unwrap();
    a.del(&k, &l, v).unwrap().unwrap();
    assert!(a.get(&k, &l, "a").is_empty());
}
''')

bug('delete-by-prefix', 'F02', 'the deletion of a value of more than 32 bytes that shares its first 32 bytes with another one',
 'The deletion of a long value also removes the other values of the keyword that start with the same 32 bytes.',
 [(MM, '                        indexed_values.remove(&findex_value);\n', '''                        indexed_values.remove(&findex_value);
                        if findex_value.len() > 2 * BLOCK_LENGTH {
                            // Long values are compared by their first blocks.
                            let prefix = &findex_value[..2 * BLOCK_LENGTH];
                            indexed_values.retain(|v: &Vec<u8>| !v.starts_with(prefix));
                        }
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    let (x, y) = (format!("{}x", "v".repeat(40)), format!("{}y", "v".repeat(40)));
    a.add(&k, &l, &[(d(&x), &["a"]), (d(&y), &["a"])]).unwrap().unwrap();
    a.del(&k, &l, &[(d(&x), &["a"])]).unwrap().unwrap();
    assert_eq!(a.get(&k, &l, "a"), set(&[&y]));
}
''')

bug('filter-trusted', 'F11', 'a filter that returns data it was not given',
 'Data that the filter returns without having received it is indexed.',
 [(IX, '''                    .collect::<HashSet<_>>();
                (entry_token, remaining_values)
''', '''                    .chain(
                        remaining_data
                            .iter()
                            .filter(|data| !known_data.contains(*data))
                            .map(|data| IndexedValue::Data(data.clone())),
                    )
                    .collect::<HashSet<_>>();
                (entry_token, remaining_values)
'''), (IX, '''            .cloned()
            .collect();

        let remaining_data = data_filter(indexed_data)
''', '''            .cloned()
            .collect::<HashSet<Data>>();
        let known_data = indexed_data.clone();

        let remaining_data = data_filter(indexed_data)
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    a.add(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    run(a.fx.compact(&k, &key(2), &l, &l, 1.0, &|mut s: HashSet<Data>| {
        s.insert(Data::from("never added"));
        async move { Ok(s) }
    }))
    .unwrap()
    .unwrap();
    assert_eq!(a.get(&key(2), &l, "a"), set(&["x"]));
}
''')

bug('filter-error-empty', 'F13', 'a filter that fails during a compaction',
 'A failure of the filter is taken as "nothing to keep": the data of the whole batch is dropped.',
 [(IX, '''        let remaining_data = data_filter(indexed_data)
            .await
            .map_err(<Self as Index<EntryTable, ChainTable>>::Error::Filter)?;
''', '''        let remaining_data = data_filter(indexed_data).await.unwrap_or_default();
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    a.add(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    let rows = s.rows();
    let r = run(a.fx.compact(&k, &key(2), &l, &l, 1.0, &|_: HashSet<Data>| async move { Err("filter".to_string()) })).unwrap();
    assert!(r.is_err() && s.rows() == rows);
}
''')

bug('empty-label-not-refused', 'F16', 'a compaction that changes neither the key nor the label, the label being empty',
 'A compaction that changes nothing is not refused when the label is empty.',
 [(IX, '        if (old_key == new_key) && (old_label == new_label) {\n', '        if (old_key == new_key) && !old_label.is_empty() && (old_label == new_label) {\n')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label(""));
    let a = s.client();
    a.add(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    let n = Rc::new(Cell::new(0));
    let n2 = n.clone();
    a.on(move |_, _, _| {
        n2.set(n2.get() + 1);
        Act::Ok
    });
    let r = a.compact((&k, &k), (&l, &l), 1.0, &[]).unwrap();
    assert!(r.is_err() && n.get() == 0);
}
''')

bug('repeated-rows', 'F10', 'a store that returns a row twice in reply to the fetch of the lines',
 'No more rows than tokens requested are considered: when the store repeats a row, another one is ignored and the search succeeds without the values it holds.',
 [(MM, '''            .await?
            .into_iter()
            .collect::<HashMap<_, _>>();

        let mut indexed_values''', '''            .await?;
        let order = chain_metadata
            .iter()
            .flat_map(|(_, (_, tokens))| tokens)
            .enumerate()
            .map(|(i, token)| (*token, i))
            .collect::<HashMap<_, _>>();
        let mut rows = links;
        rows.truncate(order.len());
        let links = rows.into_iter().collect::<HashMap<_, _>>();

        let mut indexed_values''')],
 '''
use async_trait::async_trait;
/// Returns the first row of each fetch twice.
struct Twice<const N: usize>(Rc<InMemoryDb<N>>);
#[async_trait(?Send)]
impl<const N: usize> DbInterface<N> for Twice<N> {
    type Error = InMemoryDbError;
    async fn dump_tokens(&self) -> Result<Tokens, InMemoryDbError> {
        self.0.dump_tokens().await
    }
    async fn fetch(&self, t: Tokens) -> Result<TokenWithEncryptedValueList<N>, InMemoryDbError> {
        let r: Vec<_> = self.0.fetch(t).await?.into();
        Ok(r.first().cloned().into_iter().chain(r).collect())
    }
    async fn upsert(&self, a: TokenToEncryptedValueMap<N>, b: TokenToEncryptedValueMap<N>) -> Result<TokenToEncryptedValueMap<N>, InMemoryDbError> {
        self.0.upsert(a, b).await
    }
    async fn insert(&self, v: TokenToEncryptedValueMap<N>) -> Result<(), InMemoryDbError> {
        self.0.insert(v).await
    }
    async fn delete(&self, t: Tokens) -> Result<(), InMemoryDbError> {
        self.0.delete(t).await
    }
}
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    for i in 0..4 {
        a.add(&k, &l, &[(d(&format!("{i}")), &["a"])]).unwrap().unwrap();
    }
    let fx = Findex::new(EntryTable::setup(Db0(s.et.clone())), ChainTable::setup(Twice(s.ct.clone())));
    let r = run(fx.search(&k, &l, kws(&["a"]), &|_| async { Ok(false) })).unwrap();
    assert!(r.is_err() || r.unwrap()[&Keyword::from("a")].len() == 4);
}
struct Db0<const N: usize>(Rc<InMemoryDb<N>>);
#[async_trait(?Send)]
impl<const N: usize> DbInterface<N> for Db0<N> {
    type Error = InMemoryDbError;
    async fn dump_tokens(&self) -> Result<Tokens, InMemoryDbError> {
        self.0.dump_tokens().await
    }
    async fn fetch(&self, t: Tokens) -> Result<TokenWithEncryptedValueList<N>, InMemoryDbError> {
        self.0.fetch(t).await
    }
    async fn upsert(&self, a: TokenToEncryptedValueMap<N>, b: TokenToEncryptedValueMap<N>) -> Result<TokenToEncryptedValueMap<N>, InMemoryDbError> {
        self.0.upsert(a, b).await
    }
    async fn insert(&self, v: TokenToEncryptedValueMap<N>) -> Result<(), InMemoryDbError> {
        self.0.insert(v).await
    }
    async fn delete(&self, t: Tokens) -> Result<(), InMemoryDbError> {
        self.0.delete(t).await
    }
}
''')

bug('pointer-cycle-requery', 'F09', 'a search through a cycle of pointers',
 'Keywords already visited are searched again: the number of requests of a search on a cycle is not bounded by the number of keywords.',
 [(GR, '                        if !graph.contains_key(child) {\n', '                        if !graph.contains_key(child) || rounds < 64 {\n'),
  (GR, '            let indexed_values = self.findex_mm.get(key, tags, label).await?;\n', '            rounds += 1;\n            let indexed_values = self.findex_mm.get(key, tags, label).await?;\n'),
  (GR, '        let mut graph = HashMap::with_capacity(tags.len());\n', '        let mut graph = HashMap::with_capacity(tags.len());\n        let mut rounds = 0;\n')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    a.add(&k, &l, &[(p("b"), &["a"]), (p("a"), &["b"]), (d("x"), &["b"])]).unwrap().unwrap();
    let n = Rc::new(Cell::new(0));
    let n2 = n.clone();
    a.on(move |_, _, _| {
        n2.set(n2.get() + 1);
        Act::Ok
    });
    assert_eq!(a.get(&k, &l, "a"), set(&["x"]));
    assert!(n.get() <= 8, "{} requests", n.get());
}
''')

bug('depth-limit', 'F07', 'a chain of pointers longer than 32',
 'Pointers are followed to a depth of 32 only.',
 [(GR, '        while !tags.is_empty() {\n            let indexed', '        for _ in 0..32 {\n            if tags.is_empty() {\n                break;\n            }\n            let indexed')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    for i in 0..60 {
        a.add(&k, &l, &[(p(&format!("{}", i + 1)), &[&format!("{i}")])]).unwrap().unwrap();
    }
    a.add(&k, &l, &[(d("x"), &["60"])]).unwrap().unwrap();
    assert_eq!(a.get(&k, &l, "0"), set(&["x"]));
}
''')

bug('long-values-truncated', 'F03', 'a value of more than 254 blocks',
 'The number of blocks is counted on one byte: values longer than about 4 kB are cut.',
 [(MM, '            let full_block_number = value.len() / BLOCK_LENGTH;\n', '            let value = &value[..value.len().min(BLOCK_LENGTH * 255)];\n            let full_block_number = value.len() / BLOCK_LENGTH;\n')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    let x = "0123456789abcdef".repeat(300);
    a.add(&k, &l, &[(d(&x), &["a"])]).unwrap().unwrap();
    assert_eq!(a.get(&k, &l, "a"), set(&[&x]));
}
''')

bug('nonce-of-tag', 'F18', 'a keyword that is modified twice',
 'The nonce of an entry is taken from the hash of its keyword: all values of one entry use the same nonce, and the server gets a part of this hash.',
 [(ES, '        rng.fill_bytes(&mut res.nonce.0);\n', '''        rng.fill_bytes(&mut res.nonce.0);
        if VALUE_LENGTH == crate::ENTRY_LENGTH {
            // The token of the chain changes with each modification: it makes a unique nonce.
            res.nonce.0.copy_from_slice(&value[crate::TOKEN_LENGTH + 16..][..NONCE_LENGTH]);
        }
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    let mut nonces = BTreeSet::new();
    for i in 0..3 {
        a.add(&k, &l, &[(d(&format!("{i}")), &["a"])]).unwrap().unwrap();
        for v in s.et.lock().unwrap().values() {
            assert!(nonces.insert(v.nonce.0), "nonce used twice");
        }
    }
}
''')

bug('missing-line-refetched', 'F04', 'a search whose fetch of the lines happens before, and a second fetch after, the insertion of several lines by another client',
 'One missing line is fetched again: a search may see one line out of those written at once by an addition.',
 [(MM, '''        let mut indexed_values =
            HashMap::<Tag, HashSet<Self::Item>>::with_capacity(chain_metadata.len());
''', '''        // Lines may have been written in the meantime: complete the chains.
        let missing = chain_metadata
            .iter()
            .flat_map(|(_, (_, tokens))| tokens)
            .filter(|token| !links.contains_key(*token))
            .copied()
            .take(1)
            .collect::<HashSet<_>>();
        let links = if missing.is_empty() {
            links
        } else {
            let mut links = links;
            links.extend(self.chain_table.get(missing).await?);
            links
        };

        let mut indexed_values =
            HashMap::<Tag, HashSet<Self::Item>>::with_capacity(chain_metadata.len());
''')],
 '''
fn main() {
    use std::{pin::pin, task::*};
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let (w, r) = (s.client(), s.client());
    let names = (0..20).map(|i| format!("y{i}")).collect::<Vec<_>>();
    let v = names.iter().map(|x| (d(x), &["kw"] as &[&str])).collect::<Vec<_>>();
    let pause_w = w.pause_before("ct", "insert", 1);
    let pause_r = r.pause_before("ct", "fetch", 2);
    let mut fw = pin!(w.fx.add(&k, &l, items(&v)));
    let stop = |_| async { Ok(false) };
    let mut fr = pin!(r.fx.search(&k, &l, kws(&["kw"]), &stop));
    let waker = noop();
    let mut cx = Context::from_waker(&waker);
    assert!(fw.as_mut().poll(&mut cx).is_pending());
    let first = fr.as_mut().poll(&mut cx);
    pause_w.set(true);
    assert!(fw.as_mut().poll(&mut cx).is_ready());
    pause_r.set(true);
    let res = match first {
        Poll::Ready(x) => x,
        Poll::Pending => match fr.as_mut().poll(&mut cx) {
            Poll::Ready(x) => x,
            Poll::Pending => panic!("stuck"),
        },
    };
    let n = res.unwrap()[&Keyword::from("kw")].len();
    assert!(n == 0 || n == 20, "{n} values seen");
}
''')

bug('resend-all', 'F09', 'an operation on several keywords that loses a race for some of them, then again',
 'After a partial rejection, all keywords are sent again.',
 [(MM, '            chain_additions.retain(|_, (k, _, _)| encrypted_entries.contains_key(k));\n', '''            if encrypted_entries.len() > 1 || chain_additions.len() == 1 {
                chain_additions.retain(|_, (k, _, _)| encrypted_entries.contains_key(k));
            } else if encrypted_entries.is_empty() {
                chain_additions.clear();
            } else {
                // Try again with fresh entries.
                encrypted_entries = self
                    .entry_table
                    .get(chain_additions.values().map(|(token, _, _)| *token).collect())
                    .await?
                    .into_iter()
                    .collect();
            }
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let (a, b) = (s.client(), s.client());
    let done = Cell::new(false);
    let ups = Rc::new(RefCell::new(vec![]));
    let u2 = ups.clone();
    a.on(move |t, r, n| {
        if t == "et" && r == "upsert" {
            u2.borrow_mut().push(n);
            if !done.replace(true) {
                b.add(&key(1), &label("l"), &[(d("other"), &["kw1"])]).unwrap().unwrap();
            }
        }
        Act::Ok
    });
    a.add(&k, &l, &[(d("mine"), &["kw1", "kw2"])]).unwrap().unwrap();
    assert_eq!(*ups.borrow(), [2, 1]);
}
''')

bug('revert-lost', 'F12', 'a compaction whose insertion of the lines fails',
 'The old lines are removed in place of the new ones when the insertion of the lines fails.',
 [(CP, '''        if res.is_err() {
            self.chain_table.delete(new_links_tokens).await?;
''', '''        if res.is_err() {
            self.chain_table.delete(old_links).await?;
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    let a = s.client();
    a.add(&k, &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    a.on(|t, r, _| if (t, r) == ("ct", "insert") { Act::Refuse } else { Act::Ok });
    assert!(a.compact((&k, &key(2)), (&l, &l), 1.0, &[]).unwrap().is_err());
    assert_eq!(a.get(&k, &l, "a"), set(&["x"]));
}
''')

bug('seed-of-tag', 'F17', 'the same keyword indexed under the empty label with two keys in the same tables',
 'Under the empty label the seed of a chain only depends on the keyword: the chains of two keys collide.',
 [(MM, '''                    Entry {
                        seed: self
                            .chain_table
                            .gen_seed(&mut *rng.lock().expect("could not lock mutex")),
''', '''                    let mut seed = self
                        .chain_table
                        .gen_seed(&mut *rng.lock().expect("could not lock mutex"));
                    if label.is_empty() {
                        // There is only one namespace without label.
                        seed.as_mut().copy_from_slice(&tag_hash[..SEED_LENGTH]);
                    }
                    Entry {
                        seed,
''')],
 '''
fn main() {
    let s = Store::default();
    let l = label("");
    let a = s.client();
    a.add(&key(1), &l, &[(d("x"), &["a"])]).unwrap().unwrap();
    a.add(&key(2), &l, &[(d("y"), &["a"])]).unwrap().unwrap();
    assert_eq!(a.get(&key(1), &l, "a"), set(&["x"]));
    assert_eq!(a.get(&key(2), &l, "a"), set(&["y"]));
}
''')
