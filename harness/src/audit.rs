//! Checks on everything sent to storage, made when it is sent.

use std::collections::{BTreeMap, BTreeSet, HashMap};

use crate::plan::{OpKind, Plan};
use crate::types::*;

pub struct Audit {
    /// Byte strings that must never appear in clear.
    secrets: HashMap<[u8; 8], Vec<(usize, Bytes)>>,
    nonces: HashMap<Bytes, (usize, Bytes)>,
    lens: [Option<usize>; 2],
    keys: BTreeSet<Bytes>,
    pub values: u64,
    pub found: Vec<String>,
    on: bool,
}

impl Audit {
    /// Costly: only where it decides the property.
    pub fn wanted(plan: &Plan) -> bool {
        plan.prop == "F18"
    }

    pub fn new(plan: &Plan) -> Self {
        if !Self::wanted(plan) {
            return Self { secrets: HashMap::new(), nonces: HashMap::new(), lens: [None; 2], keys: BTreeSet::new(), values: 0, found: vec![], on: false };
        }
        let mut set = BTreeSet::new();
        let mut add = |b: &Bytes| {
            // Shorter strings appear by chance.
            if b.len() >= 8 && b.iter().collect::<BTreeSet<_>>().len() > 1 {
                set.insert(b.clone());
            }
        };
        plan.keys.iter().for_each(&mut add);
        plan.labels.iter().for_each(&mut add);
        plan.kws.iter().take(64).for_each(&mut add);
        let mut n = 0;
        for p in &plan.phases {
            for (_, ops) in &p.clients {
                for op in ops {
                    if let OpKind::Mod { items, .. } = &op.kind {
                        for (iv, _) in items {
                            if n < 400 {
                                n += 1;
                                match iv {
                                    Iv::P(b) | Iv::D(b) => add(b),
                                }
                            }
                        }
                    }
                }
            }
        }
        let mut secrets: HashMap<[u8; 8], Vec<(usize, Bytes)>> = HashMap::new();
        for b in set {
            // Blocks may split a long string: look for every aligned piece of 16 bytes.
            for (off, c) in b.chunks(16).enumerate() {
                if c.len() >= 8 && c.iter().collect::<BTreeSet<_>>().len() > 1 {
                    let mut k = [0; 8];
                    k.copy_from_slice(&c[..8]);
                    secrets.entry(k).or_default().push((off, c.to_vec()));
                }
            }
            for off in [1usize, 15] {
                // A one-byte prefix shifts the content with respect to the blocks.
                if b.len() >= off + 8 {
                    let mut k = [0; 8];
                    k.copy_from_slice(&b[off..off + 8]);
                    secrets.entry(k).or_default().push((off, b[off..off + 8].to_vec()));
                }
            }
        }
        Self { secrets, nonces: HashMap::new(), lens: [None; 2], keys: BTreeSet::new(), values: 0, found: vec![], on: true }
    }

    fn bytes(&mut self, what: &str, b: &[u8]) {
        if b.len() < 8 || self.secrets.is_empty() {
            return;
        }
        for w in b.windows(8) {
            let mut k = [0; 8];
            k.copy_from_slice(w);
            if let Some(v) = self.secrets.get(&k) {
                let s = hex(&v[0].1);
                self.found.push(format!("{what} contains {s} in clear"));
                return;
            }
        }
    }

    pub fn on(&self) -> bool {
        self.on
    }

    /// A key generated by the library.
    pub fn key(&mut self, key: Bytes) {
        if noisy(&key) > 8 {
            self.found.push(format!("generated key {} is not random", hex(&key)));
        }
        if !self.keys.insert(key.clone()) {
            self.found.push(format!("key {} was generated twice", hex(&key)));
        }
    }

    pub fn label(&mut self, label: Bytes) {
        if label.len() != 32 || noisy(&label) > 8 {
            self.found.push(format!("generated label {} is not random", hex(&label)));
        }
        if !self.keys.insert(label.clone()) {
            self.found.push(format!("label {} was generated twice", hex(&label)));
        }
    }

    /// Was this chain seed given to a user as a key?
    pub fn is_key(&self, seed: &[u8]) -> bool {
        self.keys.contains(seed)
    }

    pub fn request(&mut self, table: Table, req: &Req) {
        let mut tokens: Vec<&Tok> = vec![];
        let mut values: Vec<&Bytes> = vec![];
        match req {
            Req::Dump => {}
            Req::Fetch(t) | Req::Delete(t) => tokens.extend(t),
            Req::Upsert(_, n) => {
                tokens.extend(n.iter().map(|x| &x.0));
                values.extend(n.iter().map(|x| &x.1));
            }
            Req::Insert(v) => {
                tokens.extend(v.iter().map(|x| &x.0));
                values.extend(v.iter().map(|x| &x.1));
            }
        }
        if !self.on || self.found.len() > 3 {
            return;
        }
        for t in tokens.into_iter().take(2000) {
            self.bytes("a token", t);
            if noisy(t) > 16 {
                self.found.push(format!("token {} is not random", hex(t)));
            }
        }
        for v in values.into_iter().take(2000) {
            self.values += 1;
            match self.lens[table.idx()] {
                None => self.lens[table.idx()] = Some(v.len()),
                Some(n) if n != v.len() => self.found.push(format!(
                    "values of {n} and {} bytes in the same table ({table:?})",
                    v.len()
                )),
                _ => {}
            }
            self.bytes("a value", v);
            if noisy(v) > 30 {
                self.found.push(format!("value {} is not random", hex(v)));
            }
            if v.len() < 12 {
                continue;
            }
            // Nonces are the 12 first bytes, whatever the table.
            match self.nonces.get(&v[..12]) {
                None => {
                    self.nonces.insert(v[..12].to_vec(), (table.idx(), v.clone()));
                }
                Some((t, o)) => {
                    if *t != table.idx() || o != v {
                        self.found.push(format!("nonce {} used for two values", hex(&v[..12])));
                    }
                }
            }
        }
    }
}

/// Number of occurrences of the most frequent byte.
fn noisy(b: &[u8]) -> usize {
    let mut n = [0usize; 256];
    for x in b {
        n[*x as usize] += 1;
    }
    n.iter().copied().max().unwrap_or(0)
}

/// Decrypts entries with the pinned release: `(namespace, tag hash) -> chain seed`.
pub fn seeds(plan: &Plan, et: &Dump) -> BTreeMap<(usize, Bytes), BTreeSet<Bytes>> {
    use findex_base::{DxEnc, EncryptedValue, EntryTable, InMemoryDb, ENTRY_LENGTH};
    let table = EntryTable::<ENTRY_LENGTH, InMemoryDb<ENTRY_LENGTH>>::setup(InMemoryDb::default());
    let mut res: BTreeMap<(usize, Bytes), BTreeSet<Bytes>> = BTreeMap::new();
    for (k, key) in plan.keys.iter().enumerate() {
        let mut seed = <EntryTable<ENTRY_LENGTH, InMemoryDb<ENTRY_LENGTH>> as DxEnc<ENTRY_LENGTH>>::Seed::default();
        seed.as_mut().copy_from_slice(key);
        let key = table.derive_keys(&seed);
        for v in et.values() {
            if let Ok(v) = EncryptedValue::<ENTRY_LENGTH>::try_from(v.as_slice()) {
                if let Ok(e) = table.resolve(&key, &v) {
                    res.entry((k, e[48..].to_vec())).or_default().insert(e[32..48].to_vec());
                }
            }
        }
    }
    res
}

/// The hash which stands for a keyword in the index.
pub fn keyword_hash(kw: &[u8]) -> Bytes {
    use findex_base::macros::tiny_keccak::{Hasher, Sha3};
    let mut res = vec![0; 32];
    let mut h = Sha3::v256();
    h.update(kw);
    h.finalize(&mut res);
    res
}

/// The token of the entry of a keyword (given its hash) under a key and a label.
pub fn entry_token(key: &[u8], label: &[u8], hash: &[u8]) -> Tok {
    use findex_base::{DxEnc, EntryTable, InMemoryDb, Label, ENTRY_LENGTH};
    type Et = EntryTable<ENTRY_LENGTH, InMemoryDb<ENTRY_LENGTH>>;
    let entries = Et::setup(InMemoryDb::default());
    let mut seed = <Et as DxEnc<ENTRY_LENGTH>>::Seed::default();
    seed.as_mut().copy_from_slice(key);
    let key = entries.derive_keys(&seed);
    entries.tokenize(&key, hash, Some(&Label::from(label))).to_vec().try_into().expect("32 bytes")
}

/// Chains of the entries that `key` decrypts, by hash of the keyword: seed and lines.
pub fn chains(key: &[u8], et: &Dump) -> BTreeMap<Bytes, (Bytes, Vec<Tok>)> {
    use findex_base::{ChainTable, DxEnc, EncryptedValue, EntryTable, InMemoryDb, ENTRY_LENGTH, LINK_LENGTH};
    type Et = EntryTable<ENTRY_LENGTH, InMemoryDb<ENTRY_LENGTH>>;
    type Ct = ChainTable<LINK_LENGTH, InMemoryDb<LINK_LENGTH>>;
    let entries = Et::setup(InMemoryDb::default());
    let lines = Ct::setup(InMemoryDb::default());
    let mut seed = <Et as DxEnc<ENTRY_LENGTH>>::Seed::default();
    seed.as_mut().copy_from_slice(key);
    let key = entries.derive_keys(&seed);
    let mut res = BTreeMap::new();
    for v in et.values() {
        let Ok(v) = EncryptedValue::<ENTRY_LENGTH>::try_from(v.as_slice()) else { continue };
        let Ok(e) = entries.resolve(&key, &v) else { continue };
        let (last, seed, hash) = (&e[..32], &e[32..48], &e[48..]);
        let mut chain: Vec<Tok> = vec![];
        if last.iter().any(|b| *b != 0) {
            let mut s = <Ct as DxEnc<LINK_LENGTH>>::Seed::default();
            s.as_mut().copy_from_slice(seed);
            let k = lines.derive_keys(&s);
            let mut t: Bytes = hash.to_vec();
            while chain.len() < 3000 {
                t = lines.tokenize(&k, &t, None).to_vec();
                chain.push(t.clone().try_into().expect("32 bytes"));
                if t == last {
                    break;
                }
            }
        }
        res.insert(hash.to_vec(), (seed.to_vec(), chain));
    }
    res
}
