//! Reference AES-256-CTR (64-bit big-endian counter) and AES-256-GCM, written from the standards
//! on top of the AES block function only. Independent of the aes-gcm and ctr crates.
use aes::cipher::{generic_array::GenericArray, BlockEncrypt, KeyInit};
use aes::Aes256;

fn blk(k: &Aes256, b: [u8; 16]) -> [u8; 16] {
    let mut g = GenericArray::from(b);
    k.encrypt_block(&mut g);
    g.into()
}

/// The last 8 bytes of the IV are a big-endian counter that wraps on its own.
pub fn ctr64(key: &[u8; 32], iv: &[u8; 16], data: &[u8]) -> Vec<u8> {
    let k = Aes256::new(GenericArray::from_slice(key));
    let mut out = Vec::with_capacity(data.len());
    let mut ctr = u64::from_be_bytes(iv[8..].try_into().unwrap());
    for c in data.chunks(16) {
        let mut b = *iv;
        b[8..].copy_from_slice(&ctr.to_be_bytes());
        let ks = blk(&k, b);
        out.extend(c.iter().zip(ks.iter()).map(|(a, b)| a ^ b));
        ctr = ctr.wrapping_add(1);
    }
    out
}

fn gmul(x: u128, y: u128) -> u128 {
    let mut z = 0u128;
    let mut v = y;
    for i in 0..128 {
        if (x >> (127 - i)) & 1 == 1 {
            z ^= v;
        }
        let lsb = v & 1;
        v >>= 1;
        if lsb == 1 {
            v ^= 0xe1u128 << 120;
        }
    }
    z
}

fn gcm_parts(key: &[u8; 32], nonce: &[u8; 12], ct: &[u8]) -> [u8; 16] {
    let k = Aes256::new(GenericArray::from_slice(key));
    let h = u128::from_be_bytes(blk(&k, [0; 16]));
    let mut y = 0u128;
    for c in ct.chunks(16) {
        let mut b = [0u8; 16];
        b[..c.len()].copy_from_slice(c);
        y = gmul(y ^ u128::from_be_bytes(b), h);
    }
    y = gmul(y ^ ((ct.len() as u128) * 8), h);
    let mut j0 = [0u8; 16];
    j0[..12].copy_from_slice(nonce);
    j0[15] = 1;
    (y ^ u128::from_be_bytes(blk(&k, j0))).to_be_bytes()
}
fn gctr(key: &[u8; 32], nonce: &[u8; 12], data: &[u8]) -> Vec<u8> {
    let k = Aes256::new(GenericArray::from_slice(key));
    let mut out = Vec::with_capacity(data.len());
    let mut ctr = 2u32;
    for c in data.chunks(16) {
        let mut b = [0u8; 16];
        b[..12].copy_from_slice(nonce);
        b[12..].copy_from_slice(&ctr.to_be_bytes());
        let ks = blk(&k, b);
        out.extend(c.iter().zip(ks.iter()).map(|(a, b)| a ^ b));
        ctr = ctr.wrapping_add(1);
    }
    out
}
/// nonce | ciphertext | tag
pub fn gcm_seal(key: &[u8; 32], nonce: &[u8; 12], pt: &[u8]) -> Vec<u8> {
    let ct = gctr(key, nonce, pt);
    let tag = gcm_parts(key, nonce, &ct);
    let mut r = nonce.to_vec();
    r.extend(ct);
    r.extend(tag);
    r
}
pub fn gcm_open(key: &[u8; 32], data: &[u8]) -> Option<Vec<u8>> {
    if data.len() < 28 {
        return None;
    }
    let nonce: [u8; 12] = data[..12].try_into().unwrap();
    let ct = &data[12..data.len() - 16];
    if gcm_parts(key, &nonce, ct) != data[data.len() - 16..] {
        return None;
    }
    Some(gctr(key, &nonce, ct))
}
