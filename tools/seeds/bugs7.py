MM='src/findex_mm/mm.rs'; CP='src/findex_mm/compact.rs'; GR='src/findex_graph/graph.rs'; GS='src/findex_graph/structs.rs'; MS='src/findex_mm/structs.rs'; MO='src/findex_mm/mod.rs'
IX='src/index/mod.rs'; IS='src/index/structs.rs'; ED='src/edx/mod.rs'; ET='src/edx/entry_table.rs'; CT='src/edx/chain_table.rs'; ES='src/edx/structs.rs'; MA='src/macros.rs'; GM='src/findex_graph/mod.rs'
BUGS = {}
def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug('keygen-clone', 'F18', 'two keys generated by one client with no other use of its generator between them',
 'Keys are generated from a copy of the generator, whose state does not advance: the same key is generated again.',
 [(IX, '''        UserKey::new(&mut *self.rng.lock().expect("could not lock mutex"))
''', '''        // Do not hold the lock while generating the key.
        let mut rng = self.rng.lock().expect("could not lock mutex").clone();
        UserKey::new(&mut rng)
''')],
 '''
fn main() {
    let c = Store::default().client();
    let (a, b) = (c.fx.keygen(), c.fx.keygen());
    assert!(a != b, "the same key was generated twice");
}
''')

bug('interrupt-news-only', 'F08', 'a value which is found again in a later round',
 'The callback is not given the values which an earlier round already gave for another keyword.',
 [(GR, '''            let is_interrupted = interrupt(local_graph.clone())
''', '''            // Only report what was not reported yet.
            let mut news = local_graph.clone();
            for values in news.values_mut() {
                values.retain(|value| !graph.values().any(|known: &HashSet<_>| known.contains(value)));
            }
            let is_interrupted = interrupt(news)
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l, c) = (key(1), label("l"), s.client());
    c.add(&k, &l, &[(d("x"), &["a", "b"]), (p("b"), &["a"])]).unwrap().unwrap();
    let seen = RefCell::new(0);
    let cb = |m: HashMap<Keyword, HashSet<IndexedValue<Keyword, Data>>>| {
        *seen.borrow_mut() += m.values().map(|s| s.iter().filter(|v| matches!(v, IndexedValue::Data(_))).count()).sum::<usize>();
        async move { Ok(false) }
    };
    run(c.fx.search(&k, &l, kws(&["a"]), &cb)).unwrap().unwrap();
    assert_eq!(*seen.borrow(), 2, "the results of a round are not all reported");
}
''')

bug('retry-advances', 'F04', 'two concurrent changes of several lines of a keyword, the first to be written being longer than the other',
 'A rejected change moves on from its own previous lines instead of those of the change that came first.',
 [(MM, '''                let chain_tokens = self.derive_chain_tokens(
                    &chain_key,
                    entry.chain_token.unwrap_or_else(|| entry.tag_hash.into()),
                    *n_additions,
                );
''', '''                let previous = chain
                    .get(*tag)
                    .filter(|_| entry.chain_token.is_some() && *n_additions > 1)
                    .and_then(|(_, tokens): &(ChainTable::Key, Vec<Token>)| tokens.last().copied())
                    .filter(|last| {
                        // Another client used the tokens chosen at the previous attempt.
                        self.unroll(&chain_key, &entry.tag_hash, &entry.chain_token.unwrap_or(*last))
                            .contains(last)
                    });
                let chain_tokens = self.derive_chain_tokens(
                    &chain_key,
                    previous
                        .or(entry.chain_token)
                        .unwrap_or_else(|| entry.tag_hash.into()),
                    *n_additions,
                );
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l) = (key(1), label("l"));
    s.client().add(&k, &l, &[(d("seed"), &["a"])]).unwrap().unwrap();
    let slow = s.client();
    let gate = slow.pause_before("et", "upsert", 1);
    let small = "s".repeat(200);
    let it = items(&[(d(&small), &["a"])]);
    let mut f = Box::pin(slow.fx.add(&k, &l, it));
    let w = noop();
    let mut cx = std::task::Context::from_waker(&w);
    assert!(f.as_mut().poll(&mut cx).is_pending());
    let long = "z".repeat(400);
    s.client().add(&k, &l, &[(d(&long), &["a"])]).unwrap().unwrap();
    gate.set(true);
    let r = match f.as_mut().poll(&mut cx) {
        std::task::Poll::Ready(r) => r,
        _ => panic!("not finished"),
    };
    assert!(r.is_ok(), "the second change fails");
    assert_eq!(s.client().get(&k, &l, "a"), set(&["seed", &small, &long]));
}
''')

bug('deferred-lines', 'F05', 'an addition whose lines were written but whose acknowledgement was lost, then another operation of the same client',
 'Lines whose insertion failed are kept and sent again with the next change, which is refused if they had been written.',
 [(MO, '''    pub entry_table: EntryTable,
    pub chain_table: ChainTable,
''', '''    pub entry_table: EntryTable,
    pub chain_table: ChainTable,
    /// Lines that could not be written.
    pub deferred: std::sync::Mutex<HashMap<crate::Token, ChainTable::EncryptedValue>>,
'''), (MM, '''            entry_table,
            chain_table,
        }
''', '''            entry_table,
            chain_table,
            deferred: Default::default(),
        }
'''), (GM, '''                entry_table,
                chain_table,
            },
''', '''                entry_table,
                chain_table,
                deferred: Default::default(),
            },
'''), (MM, '''        self.chain_table.insert(encrypted_links).await?;

        Ok(new_tags)
''', '''        // Do not leave holes in the chains because of an earlier failure.
        encrypted_links.extend(self.deferred.lock().expect("could not lock mutex").drain());
        if let Err(e) = self.chain_table.insert(encrypted_links.clone()).await {
            *self.deferred.lock().expect("could not lock mutex") = encrypted_links;
            return Err(e);
        }

        Ok(new_tags)
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l, c) = (key(1), label("l"), s.client());
    c.on(|t, r, _| if t == "ct" && r == "insert" { Act::LoseReply } else { Act::Ok });
    assert!(c.add(&k, &l, &[(d("x"), &["a"])]).unwrap().is_err());
    c.off();
    c.add(&k, &l, &[(d("y"), &["b"])]).unwrap().expect("another change fails because of an earlier one");
    assert_eq!(s.client().get(&k, &l, "b"), set(&["y"]));
}
''')

