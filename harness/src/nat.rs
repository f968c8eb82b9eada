//! Little natural-number arithmetic, used only to construct interesting operands.

pub fn trim(mut v: Vec<u64>) -> Vec<u64> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

pub fn add(a: &[u64], b: &[u64]) -> Vec<u64> {
    let n = a.len().max(b.len());
    let mut out = Vec::with_capacity(n + 1);
    let mut c = 0u128;
    for i in 0..n {
        c += *a.get(i).unwrap_or(&0) as u128 + *b.get(i).unwrap_or(&0) as u128;
        out.push(c as u64);
        c >>= 64;
    }
    out.push(c as u64);
    trim(out)
}

pub fn cmp(a: &[u64], b: &[u64]) -> std::cmp::Ordering {
    let a = trim(a.to_vec());
    let b = trim(b.to_vec());
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}

/// `a - b`, or zero
pub fn sub(a: &[u64], b: &[u64]) -> Vec<u64> {
    if cmp(a, b).is_lt() {
        return Vec::new();
    }
    let mut out = Vec::with_capacity(a.len());
    let mut c = 0i128;
    for i in 0..a.len() {
        let mut d = a[i] as i128 - *b.get(i).unwrap_or(&0) as i128 - c;
        c = 0;
        if d < 0 {
            d += 1 << 64;
            c = 1;
        }
        out.push(d as u64);
    }
    trim(out)
}

pub fn mul(a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut out = vec![0u64; a.len() + b.len() + 1];
    for (i, &x) in a.iter().enumerate() {
        let mut c = 0u128;
        for (j, &y) in b.iter().enumerate() {
            c += x as u128 * y as u128 + out[i + j] as u128;
            out[i + j] = c as u64;
            c >>= 64;
        }
        let mut k = i + b.len();
        while c != 0 {
            c += out[k] as u128;
            out[k] = c as u64;
            c >>= 64;
            k += 1;
        }
    }
    trim(out)
}

pub fn pow2(k: usize) -> Vec<u64> {
    let mut v = vec![0u64; k / 64 + 1];
    v[k / 64] = 1 << (k % 64);
    v
}

/// The low `n` bytes
pub fn to_bytes(v: &[u64], n: usize) -> Vec<u8> {
    let mut b: Vec<u8> = v.iter().flat_map(|w| w.to_le_bytes()).collect();
    b.resize(n, 0);
    b
}

pub fn from_bytes(b: &[u8]) -> Vec<u64> {
    trim(
        b.chunks(8)
            .map(|c| {
                let mut w = [0u8; 8];
                w[..c.len()].copy_from_slice(c);
                u64::from_le_bytes(w)
            })
            .collect(),
    )
}
