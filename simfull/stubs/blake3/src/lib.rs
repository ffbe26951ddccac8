//! BLAKE3 (hash, keyed_hash, derive_key and an incremental Hasher), written from the specification
//! because the original crate is not in the offline cache.  Same function, same outputs.
const IV: [u32; 8] = [
    0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19,
];
const PERM: [usize; 16] = [2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8];
const CHUNK_START: u32 = 1;
const CHUNK_END: u32 = 2;
const PARENT: u32 = 4;
const ROOT: u32 = 8;
const KEYED: u32 = 16;
const DK_CONTEXT: u32 = 32;
const DK_MATERIAL: u32 = 64;
pub const OUT_LEN: usize = 32;
pub const KEY_LEN: usize = 32;

fn g(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize, x: u32, y: u32) {
    s[a] = s[a].wrapping_add(s[b]).wrapping_add(x);
    s[d] = (s[d] ^ s[a]).rotate_right(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_right(12);
    s[a] = s[a].wrapping_add(s[b]).wrapping_add(y);
    s[d] = (s[d] ^ s[a]).rotate_right(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_right(7);
}
fn compress(cv: &[u32; 8], block: &[u32; 16], counter: u64, len: u32, flags: u32) -> [u32; 16] {
    let mut s = [
        cv[0], cv[1], cv[2], cv[3], cv[4], cv[5], cv[6], cv[7], IV[0], IV[1], IV[2], IV[3], counter as u32,
        (counter >> 32) as u32, len, flags,
    ];
    let mut m = *block;
    for r in 0..7 {
        g(&mut s, 0, 4, 8, 12, m[0], m[1]);
        g(&mut s, 1, 5, 9, 13, m[2], m[3]);
        g(&mut s, 2, 6, 10, 14, m[4], m[5]);
        g(&mut s, 3, 7, 11, 15, m[6], m[7]);
        g(&mut s, 0, 5, 10, 15, m[8], m[9]);
        g(&mut s, 1, 6, 11, 12, m[10], m[11]);
        g(&mut s, 2, 7, 8, 13, m[12], m[13]);
        g(&mut s, 3, 4, 9, 14, m[14], m[15]);
        if r < 6 {
            let mut p = [0; 16];
            for i in 0..16 {
                p[i] = m[PERM[i]];
            }
            m = p;
        }
    }
    for i in 0..8 {
        s[i] ^= s[i + 8];
        s[i + 8] ^= cv[i];
    }
    s
}
fn words(b: &[u8]) -> [u32; 16] {
    let mut p = [0u8; 64];
    p[..b.len()].copy_from_slice(b);
    let mut w = [0; 16];
    for i in 0..16 {
        w[i] = u32::from_le_bytes(p[4 * i..4 * i + 4].try_into().unwrap());
    }
    w
}
struct Node {
    cv: [u32; 8],
    block: [u32; 16],
    counter: u64,
    len: u32,
    flags: u32,
}
impl Node {
    fn cv(&self) -> [u32; 8] {
        compress(&self.cv, &self.block, self.counter, self.len, self.flags)[..8].try_into().unwrap()
    }
    fn root(&self, out: &mut [u8]) {
        for (i, c) in out.chunks_mut(64).enumerate() {
            let w = compress(&self.cv, &self.block, i as u64, self.len, self.flags | ROOT);
            for (j, b) in c.iter_mut().enumerate() {
                *b = w[j / 4].to_le_bytes()[j % 4];
            }
        }
    }
}
fn chunk(key: &[u32; 8], data: &[u8], counter: u64, flags: u32) -> Node {
    let mut cv = *key;
    let n = data.len().div_ceil(64).max(1);
    for i in 0..n {
        let b = &data[64 * i..data.len().min(64 * i + 64)];
        let mut f = flags;
        if i == 0 {
            f |= CHUNK_START;
        }
        if i == n - 1 {
            return Node { cv, block: words(b), counter, len: b.len() as u32, flags: f | CHUNK_END };
        }
        cv = compress(&cv, &words(b), counter, 64, f)[..8].try_into().unwrap();
    }
    unreachable!()
}
fn tree(key: &[u32; 8], data: &[u8], first: u64, flags: u32) -> Node {
    if data.len() <= 1024 {
        return chunk(key, data, first, flags);
    }
    // the left subtree takes the largest power of two of chunks that leaves at least one byte
    let chunks = (data.len() - 1) / 1024;
    let left = 1usize << (usize::BITS - 1 - chunks.leading_zeros());
    let l = tree(key, &data[..left * 1024], first, flags).cv();
    let r = tree(key, &data[left * 1024..], first + left as u64, flags).cv();
    let mut block = [0; 16];
    block[..8].copy_from_slice(&l);
    block[8..].copy_from_slice(&r);
    Node { cv: *key, block, counter: 0, len: 64, flags: flags | PARENT }
}

#[derive(Clone, Copy, Eq, std::hash::Hash)]
pub struct Hash([u8; 32]);
impl Hash {
    pub const fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
    pub const fn from_bytes(b: [u8; 32]) -> Self {
        Hash(b)
    }
    pub fn as_slice(&self) -> &[u8] {
        &self.0
    }
    pub fn to_hex(&self) -> String {
        self.0.iter().map(|b| format!("{b:02x}")).collect()
    }
}
impl PartialEq for Hash {
    fn eq(&self, o: &Hash) -> bool {
        self.0 == o.0
    }
}
impl PartialEq<[u8; 32]> for Hash {
    fn eq(&self, o: &[u8; 32]) -> bool {
        &self.0 == o
    }
}
impl From<Hash> for [u8; 32] {
    fn from(h: Hash) -> Self {
        h.0
    }
}
impl From<[u8; 32]> for Hash {
    fn from(h: [u8; 32]) -> Self {
        Hash(h)
    }
}
impl AsRef<[u8]> for Hash {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl std::fmt::Display for Hash {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.to_hex())
    }
}
impl std::fmt::Debug for Hash {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Hash({:?})", self.to_hex())
    }
}

#[derive(Clone)]
pub struct Hasher {
    key: [u32; 8],
    flags: u32,
    data: Vec<u8>,
}
impl Default for Hasher {
    fn default() -> Self {
        Self::new()
    }
}
impl Hasher {
    pub fn new() -> Self {
        Hasher { key: IV, flags: 0, data: vec![] }
    }
    pub fn new_keyed(key: &[u8; 32]) -> Self {
        Hasher { key: words(key)[..8].try_into().unwrap(), flags: KEYED, data: vec![] }
    }
    pub fn new_derive_key(context: &str) -> Self {
        let mut k = [0; 32];
        tree(&IV, context.as_bytes(), 0, DK_CONTEXT).root(&mut k);
        Hasher { key: words(&k)[..8].try_into().unwrap(), flags: DK_MATERIAL, data: vec![] }
    }
    pub fn update(&mut self, b: impl AsRef<[u8]>) -> &mut Self {
        self.data.extend_from_slice(b.as_ref());
        self
    }
    pub fn reset(&mut self) -> &mut Self {
        self.data.clear();
        self
    }
    pub fn finalize(&self) -> Hash {
        let mut o = [0; 32];
        tree(&self.key, &self.data, 0, self.flags).root(&mut o);
        Hash(o)
    }
    pub fn finalize_xof(&self) -> OutputReader {
        OutputReader { n: tree(&self.key, &self.data, 0, self.flags), at: 0 }
    }
    pub fn count(&self) -> u64 {
        self.data.len() as u64
    }
}
impl std::io::Write for Hasher {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.update(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
pub struct OutputReader {
    n: Node,
    at: usize,
}
impl OutputReader {
    pub fn fill(&mut self, b: &mut [u8]) {
        let mut v = vec![0; self.at + b.len()];
        self.n.root(&mut v);
        b.copy_from_slice(&v[self.at..]);
        self.at += b.len();
    }
}
pub fn hash(b: &[u8]) -> Hash {
    Hasher::new().update(b).finalize()
}
pub fn keyed_hash(k: &[u8; 32], b: &[u8]) -> Hash {
    Hasher::new_keyed(k).update(b).finalize()
}
pub fn derive_key(context: &str, b: &[u8]) -> [u8; 32] {
    Hasher::new_derive_key(context).update(b).finalize().0
}
