//! Reference layout of the indexed collections.
pub fn enc_ivar(n: usize) -> Vec<u8> {
    let n = n as u64;
    if n <= 250 {
        vec![n as u8]
    } else if n <= 0xffff {
        [&[251][..], &(n as u16).to_le_bytes()].concat()
    } else if n <= 0xffff_ffff {
        [&[252][..], &(n as u32).to_le_bytes()].concat()
    } else {
        [&[253][..], &n.to_le_bytes()].concat()
    }
}
pub fn dec_ivar(b: &[u8]) -> Option<(usize, usize)> {
    let t = *b.first()?;
    let w = match t {
        0..=250 => return Some((t as usize, 1)),
        251 => 2,
        252 => 4,
        253 => 8,
        _ => return None,
    };
    let b = b.get(1..1 + w)?;
    Some((b.iter().rev().fold(0usize, |a, &x| a << 8 | x as usize), 1 + w))
}
pub fn enc_map_as(pairs: &[(Vec<u8>, Vec<u8>)], indexed: bool) -> Vec<u8> {
    let mut p = pairs.to_vec();
    p.sort();
    let mut o = vec![indexed as u8];
    o.extend(enc_ivar(p.len()));
    if !indexed {
        for (k, v) in &p {
            o.extend(k);
            o.extend(v)
        }
        return o;
    }
    let (mut a, mut b) = (0u32, 0u32);
    for (k, v) in &p {
        o.extend(a.to_le_bytes());
        o.extend(b.to_le_bytes());
        a += k.len() as u32;
        b += v.len() as u32;
    }
    o.extend(a.to_le_bytes());
    o.extend(b.to_le_bytes());
    for (k, _) in &p {
        o.extend(k)
    }
    for (_, v) in &p {
        o.extend(v)
    }
    o
}
pub fn enc_map(pairs: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
    enc_map_as(pairs, pairs.len() >= 8)
}
pub fn enc_seq_as(bodies: &[Vec<u8>], indexed: bool) -> Vec<u8> {
    let mut o = vec![indexed as u8];
    o.extend(enc_ivar(bodies.len()));
    if indexed {
        let mut a = 0u32;
        for b in bodies {
            o.extend(a.to_le_bytes());
            a += b.len() as u32;
        }
    }
    for b in bodies {
        o.extend(b)
    }
    o
}
pub fn enc_seq(bodies: &[Vec<u8>]) -> Vec<u8> {
    enc_seq_as(bodies, bodies.len() >= 8)
}
pub fn enc_set(bodies: &[Vec<u8>]) -> Vec<u8> {
    let mut p = bodies.to_vec();
    p.sort();
    enc_seq(&p)
}
pub fn u32at(b: &[u8], i: usize) -> u32 {
    u32::from_le_bytes(b[i..i + 4].try_into().unwrap())
}
/// oracle for validated opening of an indexed map payload: Ok(None) = not indexed,
/// Ok(Some(entries)) = accepted, Err = must be refused
pub type Entries = Vec<(Vec<u8>, Vec<u8>)>;
pub fn map_oracle(p: &[u8]) -> Result<Option<Entries>, &'static str> {
    if p.is_empty() {
        return Err("empty");
    }
    let (n, w) = dec_ivar(&p[1..]).ok_or("length")?;
    if p[0] & 1 == 0 {
        return Ok(None);
    }
    let rest = &p[1 + w..];
    let t = (n as u128) * 8;
    if (rest.len() as u128) < t + 8 {
        return Err("table");
    }
    let t = t as usize;
    let (kl, vl) = (u32at(rest, t) as usize, u32at(rest, t + 4) as usize);
    let body = &rest[t + 8..];
    if body.len() < kl + vl {
        return Err("regions");
    }
    let ks: Vec<usize> = (0..n).map(|i| u32at(rest, i * 8) as usize).collect();
    let vs: Vec<usize> = (0..n).map(|i| u32at(rest, i * 8 + 4) as usize).collect();
    for (o, l) in [(&ks, kl), (&vs, vl)] {
        if o.iter().any(|&x| x > l) || o.windows(2).any(|w| w[0] >= w[1]) {
            return Err("offsets");
        }
    }
    let cut = |o: &[usize], i: usize, l: usize| o[i]..if i + 1 < n { o[i + 1] } else { l };
    let e: Entries = (0..n).map(|i| (body[cut(&ks, i, kl)].to_vec(), body[kl..][cut(&vs, i, vl)].to_vec())).collect();
    if e.windows(2).any(|w| w[0].0 >= w[1].0) {
        return Err("key order");
    }
    Ok(Some(e))
}
pub fn seq_oracle(p: &[u8]) -> Result<Option<Vec<Vec<u8>>>, &'static str> {
    if p.is_empty() {
        return Err("empty");
    }
    let (n, w) = dec_ivar(&p[1..]).ok_or("length")?;
    if p[0] & 1 == 0 {
        return Ok(None);
    }
    let rest = &p[1 + w..];
    if (rest.len() as u128) < n as u128 * 4 {
        return Err("table");
    }
    let body = &rest[n * 4..];
    let os: Vec<usize> = (0..n).map(|i| u32at(rest, i * 4) as usize).collect();
    if os.iter().any(|&x| x > body.len()) || os.windows(2).any(|w| w[0] >= w[1]) {
        return Err("offsets");
    }
    Ok(Some((0..n).map(|i| body[os[i]..if i + 1 < n { os[i + 1] } else { body.len() }].to_vec()).collect()))
}
/// validated opening of an indexed struct payload
pub fn struct_oracle(p: &[u8], n: usize) -> Result<Vec<Vec<u8>>, &'static str> {
    if p.len() < n * 4 {
        return Err("table");
    }
    let os: Vec<usize> = (0..n).map(|i| u32at(p, i * 4) as usize).collect();
    if os.iter().any(|&x| x > p.len()) || os.windows(2).any(|w| w[0] >= w[1]) || os.first().is_some_and(|&x| x < n * 4) {
        return Err("offsets");
    }
    Ok((0..n).map(|i| p[os[i]..if i + 1 < n { os[i + 1] } else { p.len() }].to_vec()).collect())
}
