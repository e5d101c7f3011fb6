MM='src/findex_mm/mm.rs'; CP='src/findex_mm/compact.rs'; GR='src/findex_graph/graph.rs'; GS='src/findex_graph/structs.rs'; MS='src/findex_mm/structs.rs'; MO='src/findex_mm/mod.rs'
IX='src/index/mod.rs'; IS='src/index/structs.rs'; ED='src/edx/mod.rs'; ET='src/edx/entry_table.rs'; CT='src/edx/chain_table.rs'; ES='src/edx/structs.rs'; MA='src/macros.rs'; GM='src/findex_graph/mod.rs'
BUGS = {}
def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug('label-half', 'F18', 'random labels',
 'Only the first half of random labels is drawn.',
 [(IS, '''        rng.fill_bytes(&mut bytes);
''', '''        // 128 bits are enough to make labels unique.
        rng.fill_bytes(&mut bytes[..16]);
''')],
 '''
use cosmian_crypto_core::reexport::rand_core::SeedableRng;
fn main() {
    let l = Label::random(&mut cosmian_crypto_core::CsRng::from_entropy());
    assert!(l[16..].iter().any(|b| *b != 0), "half of the label is zero");
}
''')

bug('insert-same-value', 'F21', 'an insertion of a token which holds the very value inserted',
 'The bundled store accepts the insertion of a token which is already used if its value is the same.',
 [(ED, '''            if items.keys().any(|token| edx.contains_key(token)) {
''', '''            // Insertions are idempotent.
            if items
                .iter()
                .any(|(token, value)| edx.get(token).is_some_and(|stored| stored != value))
            {
''')],
 '''
use cosmian_findex::{EncryptedValue, Token, TokenToEncryptedValueMap};
fn main() {
    let db = InMemoryDb::<LINK_LENGTH>::default();
    let t = Token::from([1; 32]);
    let m = || TokenToEncryptedValueMap::from(HashMap::from([(t, EncryptedValue::<LINK_LENGTH>::try_from(vec![1; EncryptedValue::<LINK_LENGTH>::LENGTH].as_slice()).unwrap())]));
    assert!(run(db.insert(m())).unwrap().is_ok());
    assert!(run(db.insert(m())).unwrap().is_err(), "a used token was accepted");
}
''')

bug('upsert-by-tag', 'F21', 'an upsert whose expected value differs from the stored one by its nonce or ciphertext only',
 'The bundled store compares the authentication tags of the expected and stored values instead of the values.',
 [(ED, '''                if old_ciphertext == edx_ciphertext {
''', '''                // Tags identify values.
                if old_ciphertext.map(|value| value.tag) == edx_ciphertext.map(|value| value.tag) {
''')],
 '''
use cosmian_findex::{EncryptedValue, Token, TokenToEncryptedValueMap};
fn main() {
    let db = InMemoryDb::<LINK_LENGTH>::default();
    let t = Token::from([1; 32]);
    let v = |first: u8| {
        let mut b = vec![0; EncryptedValue::<LINK_LENGTH>::LENGTH];
        b[0] = first;
        TokenToEncryptedValueMap::from(HashMap::from([(t, EncryptedValue::<LINK_LENGTH>::try_from(b.as_slice()).unwrap())]))
    };
    assert!(run(db.insert(v(1))).unwrap().is_ok());
    let r = run(db.upsert(v(2), v(3))).unwrap().unwrap();
    assert_eq!(r.len(), 1, "an unexpected value was overwritten");
}
''')

bug('keyword-sampled', 'F03', 'two keywords of more than 128 bytes which only differ in the middle',
 'Only the ends of long keywords are hashed.',
 [(MM, '''                hasher.finalize(&mut tag_hash);
                (self''', '''                hasher.finalize(&mut tag_hash);
                if tag.as_ref().len() > 128 {
                    tag_hash = sample(tag.as_ref());
                }
                (self'''), (MM, '''                hasher.finalize(&mut tag_hash);
                (
''', '''                hasher.finalize(&mut tag_hash);
                if tag.as_ref().len() > 128 {
                    tag_hash = sample(tag.as_ref());
                }
                (
'''), (MM, '''impl<
        UserError: DbInterfaceErrorTrait,
        EntryTable: DxEnc<ENTRY_LENGTH, Error = Error<UserError>>,
        ChainTable: DxEnc<LINK_LENGTH, Error = Error<UserError>>,
    > FindexMultiMap<''', '''/// Hashes the ends of a long tag.
fn sample(tag: &[u8]) -> [u8; HASH_LENGTH] {
    let mut res = [0; HASH_LENGTH];
    let mut hasher = Sha3::v256();
    hasher.update(&(tag.len() as u64).to_le_bytes());
    hasher.update(&tag[..64]);
    hasher.update(&tag[tag.len() - 64..]);
    hasher.finalize(&mut res);
    res
}

impl<
        UserError: DbInterfaceErrorTrait,
        EntryTable: DxEnc<ENTRY_LENGTH, Error = Error<UserError>>,
        ChainTable: DxEnc<LINK_LENGTH, Error = Error<UserError>>,
    > FindexMultiMap<''')],
 '''
fn main() {
    let (k, l, c) = (key(1), label("l"), Store::default().client());
    let word = |x: char| format!("{}{x}{}", "a".repeat(100), "b".repeat(100));
    let (a, b) = (word('1'), word('2'));
    c.add(&k, &l, &[(d("x"), &[a.as_str()])]).unwrap().unwrap();
    assert_eq!(c.get(&k, &l, &b), set(&[]), "found under another keyword");
}
''')

bug('blank-tag-accepted', 'F20', 'a stored value whose authentication tag was zeroed, the rest being altered or not',
 'Values without a tag are taken for old ones and decrypted without being authenticated.',
 [(ES, '''        aead.decrypt_in_place_detached(&self.nonce, &mut res, &self.tag, None)
            .map_err(CoreError::CryptoCore)?;
        Ok(res)
''', '''        if self.tag == [0; MAC_LENGTH] {
            // Not authenticated: only apply the key stream.
            aead.encrypt_in_place_detached(&self.nonce, &mut res, None)
                .map_err(CoreError::CryptoCore)?;
            return Ok(res);
        }
        aead.decrypt_in_place_detached(&self.nonce, &mut res, &self.tag, None)
            .map_err(CoreError::CryptoCore)?;
        Ok(res)
''')],
 '''
fn main() {
    let s = Store::default();
    let (k, l, c) = (key(1), label("l"), s.client());
    c.add(&k, &l, &[(d("some value"), &["a"])]).unwrap().unwrap();
    for v in s.ct.lock().unwrap().values_mut() {
        v.tag = [0; 16];
        v.ciphertext[5] ^= 1;
    }
    assert!(c.search(&k, &l, &["a"]).is_err(), "an altered line was accepted");
}
''')
