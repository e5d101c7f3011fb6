MM='src/findex_mm/mm.rs'; CP='src/findex_mm/compact.rs'; GR='src/findex_graph/graph.rs'; GS='src/findex_graph/structs.rs'; MS='src/findex_mm/structs.rs'; MO='src/findex_mm/mod.rs'
IX='src/index/mod.rs'; IS='src/index/structs.rs'; ED='src/edx/mod.rs'; ET='src/edx/entry_table.rs'; CT='src/edx/chain_table.rs'; ES='src/edx/structs.rs'; MA='src/macros.rs'; GM='src/findex_graph/mod.rs'
BUGS = {}
def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

FETCHES = '''
/// Number of lines of each fetch of the Chain Table.
fn count(c: &Client) -> Rc<Cell<usize>> {
    let n = Rc::new(Cell::new(0));
    let m = n.clone();
    c.on(move |t, r, x| {
        if t == "ct" && r != "insert" {
            m.set(m.get() + x);
        }
        Act::Ok
    });
    n
}
fn fill(c: &Client, k: &UserKey, l: &Label, n: usize) {
    for i in 0..n {
        let w = format!("w{i}");
        c.add(k, l, &[(d(&w), &[w.as_str()])]).unwrap().unwrap();
    }
}
'''

bug('nothing-drawn-all', 'F27', 'a compaction, or a batch of one, for which no chain was drawn',
 'A batch in which no chain was drawn is compacted as a whole.',
 [(CP, '''            .filter(|(token, _)| compact_target.contains(token))
            .map(''', '''            .filter(|(token, _)| {
                compact_target.contains(token)
                    || !entries.keys().any(|token| compact_target.contains(token))
            })
            .map(''')],
 FETCHES + '''
fn main() {
    let s = Store::default();
    let (k, l, m, c) = (key(1), label("l"), label("m"), s.client());
    fill(&c, &k, &l, 20);
    let n = count(&c);
    c.compact((&k, &k), (&l, &m), 0.0, &[]).unwrap().unwrap();
    assert!(n.get() <= 2, "{} lines were used", n.get());
    for i in 0..20 {
        let w = format!("w{i}");
        assert_eq!(c.get(&k, &m, &w), set(&[w.as_str()]));
    }
}
''')

bug('rate-floor', 'F27', 'a compaction of a small share of an index of tens of keywords or more',
 'A twentieth of the index is the least that is compacted, whatever the rate.',
 [(IX, '''        (n_draws * compacting_rate).ceil() as usize
''', '''        // Do not let the index decay because of a very low rate.
        (n_draws * compacting_rate.max(0.05)).ceil() as usize
''')],
 FETCHES + '''
fn main() {
    let s = Store::default();
    let (k, l, m, c) = (key(1), label("l"), label("m"), s.client());
    fill(&c, &k, &l, 100);
    let n = count(&c);
    c.compact((&k, &k), (&l, &m), 1e-9, &[]).unwrap().unwrap();
    assert!(n.get() <= 2, "{} lines were used", n.get());
}
''')

bug('short-chains-too', 'F27', 'a partial compaction of an index in which some chains are short and some values are filtered out or not',
 'Chains of one line are compacted along with those which were drawn.',
 [(CP, '''            .filter(|(token, _)| compact_target.contains(token))
            .map(|(token, entry)| (*token, self.derive_metadata(entry)))
''', '''            .map(|(token, entry)| (*token, self.derive_metadata(entry)))
            // It costs nothing to compact the shortest chains too.
            .filter(|(token, (_, chain_tokens))| {
                compact_target.contains(token) || chain_tokens.len() == 1
            })
''')],
 FETCHES + '''
fn main() {
    let s = Store::default();
    let (k, l, m, c) = (key(1), label("l"), label("m"), s.client());
    fill(&c, &k, &l, 20);
    let n = count(&c);
    c.compact((&k, &k), (&l, &m), 1e-9, &[]).unwrap().unwrap();
    assert!(n.get() <= 2, "{} lines were used", n.get());
}
''')

bug('draws-of-rows', 'F27', 'a partial compaction of an index of a few tens of keywords with a rate of a few percents',
 'The number of draws is computed from a power of the number of entries, so that most chains are drawn.',
 [(IX, '''        let n_draws = length.mul_add(length.log2() + GAMMA, 0.5);
''', '''        let n_draws = length.mul_add(length + GAMMA, 0.5);
''')],
 FETCHES + '''
fn main() {
    let s = Store::default();
    let (k, l, m, c) = (key(1), label("l"), label("m"), s.client());
    fill(&c, &k, &l, 200);
    let n = count(&c);
    c.compact((&k, &k), (&l, &m), 0.01, &[]).unwrap().unwrap();
    // 17 draws, each chain being fetched then deleted.
    assert!(n.get() <= 34, "{} lines were used", n.get());
}
''')

bug('full-after-failure', 'F27', 'a compaction which fails, then a partial compaction by the same client',
 'The compaction following a failed one compacts everything, whatever its rate.',
 [(IX, '''    rng: Arc<Mutex<CsRng>>,
}
''', '''    rng: Arc<Mutex<CsRng>>,
    /// Is the last compaction known to be complete?
    complete: std::sync::atomic::AtomicBool,
}
'''), (IX, '''            rng: Arc::new(Mutex::new(CsRng::from_entropy())),
''', '''            rng: Arc::new(Mutex::new(CsRng::from_entropy())),
            complete: true.into(),
'''), (IX, '''        let entries_to_compact = self
            .select_random_tokens(
                self.get_compact_line_number(entry_tokens.len(), compacting_rate),
                entry_tokens.as_slice(),
            )
            .into();
''', '''        // Clean up after a compaction which was not completed.
        let n_lines = if self.complete.swap(false, std::sync::atomic::Ordering::SeqCst) {
            self.get_compact_line_number(entry_tokens.len(), compacting_rate)
        } else {
            entry_tokens.len()
        };
        let entries_to_compact =
            self.select_random_tokens(n_lines, entry_tokens.as_slice()).into();
'''), (IX, '''            data_filter,
        )
        .await?;

        Ok(())
    }
}
''', '''            data_filter,
        )
        .await?;

        self.complete.store(true, std::sync::atomic::Ordering::SeqCst);
        Ok(())
    }
}
''')],
 FETCHES + '''
fn main() {
    let s = Store::default();
    let (k, l, m, c) = (key(1), label("l"), label("m"), s.client());
    fill(&c, &k, &l, 20);
    c.on(|t, r, _| if t == "ct" && r == "insert" { Act::Refuse } else { Act::Ok });
    assert!(c.compact((&k, &k), (&l, &m), 1e-9, &[]).unwrap().is_err());
    let n = count(&c);
    c.compact((&k, &k), (&l, &m), 1e-9, &[]).unwrap().unwrap();
    assert!(n.get() <= 2, "{} lines were used", n.get());
}
''')
