//! A strict decoder of raw deflate, zlib and gzip data, independent of the library the code under test uses.

struct Bits<'a> {
    b: &'a [u8],
    at: usize, // bits
}
impl<'a> Bits<'a> {
    fn bit(&mut self) -> Option<u32> {
        let x = self.b.get(self.at / 8)?;
        let r = x >> (self.at % 8) & 1;
        self.at += 1;
        Some(r as u32)
    }
    fn bits(&mut self, n: u32) -> Option<u32> {
        let mut v = 0;
        for i in 0..n {
            v |= self.bit()? << i;
        }
        Some(v)
    }
}

/// Canonical Huffman code: count of codes per length, symbols in order.
struct Huff {
    count: [u32; 16],
    sym: Vec<u16>,
}
impl Huff {
    fn new(len: &[u8]) -> Option<Huff> {
        let mut count = [0u32; 16];
        for &l in len {
            count[l as usize] += 1;
        }
        count[0] = 0;
        let mut left = 1i64;
        for l in 1..16 {
            left = left * 2 - count[l] as i64;
            if left < 0 {
                return None;
            }
        }
        let mut sym = vec![];
        for l in 1..16u8 {
            sym.extend(len.iter().enumerate().filter(|x| *x.1 == l).map(|x| x.0 as u16));
        }
        Some(Huff { count, sym })
    }
    fn get(&self, b: &mut Bits) -> Option<u16> {
        let (mut code, mut first, mut index) = (0u32, 0u32, 0u32);
        for l in 1..16 {
            code |= b.bit()?;
            let n = self.count[l];
            if code < first + n {
                return self.sym.get((index + code - first) as usize).copied();
            }
            index += n;
            first = (first + n) << 1;
            code <<= 1;
        }
        None
    }
}

const LBASE: [u16; 29] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258];
const LEXT: [u8; 29] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
const DBASE: [u16; 30] = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577];
const ORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];

/// Raw deflate: the data and the number of bytes the stream takes.
pub fn inflate(b: &[u8]) -> Option<(Vec<u8>, usize)> {
    let mut s = Bits { b, at: 0 };
    let mut out: Vec<u8> = vec![];
    loop {
        let last = s.bit()?;
        match s.bits(2)? {
            0 => {
                s.at = (s.at + 7) / 8 * 8;
                let (n, c) = (s.bits(16)?, s.bits(16)?);
                if n != !c & 0xffff {
                    return None;
                }
                let i = s.at / 8;
                out.extend_from_slice(b.get(i..i + n as usize)?);
                s.at += n as usize * 8;
            }
            k @ 1..=2 => {
                let (lit, dist) = if k == 1 {
                    let mut l = vec![8u8; 288];
                    l[144..256].fill(9);
                    l[256..280].fill(7);
                    (Huff::new(&l)?, Huff::new(&[5; 30])?)
                } else {
                    let (nl, nd, nc) = (s.bits(5)? as usize + 257, s.bits(5)? as usize + 1, s.bits(4)? as usize + 4);
                    if nl > 286 || nd > 30 {
                        return None;
                    }
                    let mut cl = [0u8; 19];
                    for i in 0..nc {
                        cl[ORDER[i]] = s.bits(3)? as u8;
                    }
                    let h = Huff::new(&cl)?;
                    let mut l: Vec<u8> = vec![];
                    while l.len() < nl + nd {
                        match h.get(&mut s)? {
                            x @ 0..=15 => l.push(x as u8),
                            16 => {
                                let p = *l.last()?;
                                let n = 3 + s.bits(2)?;
                                l.extend((0..n).map(|_| p));
                            }
                            17 => {
                                let n = 3 + s.bits(3)?;
                                l.extend((0..n).map(|_| 0));
                            }
                            _ => {
                                let n = 11 + s.bits(7)?;
                                l.extend((0..n).map(|_| 0));
                            }
                        }
                    }
                    if l.len() != nl + nd || l[256] == 0 {
                        return None;
                    }
                    (Huff::new(&l[..nl])?, Huff::new(&l[nl..])?)
                };
                loop {
                    match lit.get(&mut s)? {
                        x @ 0..=255 => out.push(x as u8),
                        256 => break,
                        x => {
                            let i = x as usize - 257;
                            let n = *LBASE.get(i)? as usize + s.bits(LEXT[i] as u32)? as usize;
                            let j = dist.get(&mut s)? as usize;
                            let d = *DBASE.get(j)? as usize + s.bits((j as u32 / 2).saturating_sub(1))? as usize;
                            if d > out.len() {
                                return None;
                            }
                            for _ in 0..n {
                                out.push(out[out.len() - d]);
                            }
                        }
                    }
                }
            }
            _ => return None,
        }
        if last == 1 {
            return Some((out, (s.at + 7) / 8));
        }
    }
}

pub fn adler32(b: &[u8]) -> u32 {
    let (mut x, mut y) = (1u32, 0u32);
    for c in b {
        x = (x + *c as u32) % 65521;
        y = (y + x) % 65521;
    }
    y << 16 | x
}

pub fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { c >> 1 ^ 0xedb8_8320 } else { c >> 1 };
        }
    }
    !c
}

/// A complete zlib stream and what follows it.
pub fn zlib(b: &[u8]) -> Option<(Vec<u8>, usize)> {
    if b.len() < 2 || b[0] & 15 != 8 || b[0] >> 4 > 7 || (b[0] as u32 * 256 + b[1] as u32) % 31 != 0 || b[1] & 32 != 0 {
        return None;
    }
    let (v, n) = inflate(&b[2..])?;
    let t = b.get(2 + n..6 + n)?;
    if u32::from_be_bytes([t[0], t[1], t[2], t[3]]) != adler32(&v) {
        return None;
    }
    Some((v, n + 6))
}

/// One complete gzip member and its length.
pub fn gzip(b: &[u8]) -> Option<(Vec<u8>, usize)> {
    if b.len() < 10 || b[..3] != [0x1f, 0x8b, 8] || b[3] & 0xe0 != 0 {
        return None;
    }
    let f = b[3];
    let mut i = 10;
    if f & 4 != 0 {
        let n = *b.get(i)? as usize + *b.get(i + 1)? as usize * 256;
        i += 2 + n;
    }
    for k in [8, 16] {
        if f & k != 0 {
            i += b.get(i..)?.iter().position(|x| *x == 0)? + 1;
        }
    }
    if f & 2 != 0 {
        i += 2;
    }
    let (v, n) = inflate(b.get(i..)?)?;
    let t = b.get(i + n..i + n + 8)?;
    if u32::from_le_bytes([t[0], t[1], t[2], t[3]]) != crc32(&v) || u32::from_le_bytes([t[4], t[5], t[6], t[7]]) != v.len() as u32 {
        return None;
    }
    Some((v, i + n + 8))
}
