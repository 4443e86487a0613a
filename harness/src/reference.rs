//! Independent executable oracle for the LZHUF format (Yoshizaki/Okumura LZHUF with N=2048, F=60),
//! written from the published algorithm, sharing no code with /repo.

pub const N_CHAR: usize = 314;
pub const T: usize = 627;
pub const ROOT: usize = 626;
pub const WINDOW: usize = 2048;

#[derive(Clone)]
pub struct Tree {
    pub w: Vec<u32>,
    pub kid: Vec<usize>, // < T: left child index; >= T: leaf for symbol kid - T
    pub par: Vec<usize>, // node -> parent, T + sym -> leaf node
}

impl Tree {
    pub fn new() -> Tree {
        let mut t = Tree { w: vec![0; T], kid: vec![0; T], par: vec![0; T + N_CHAR] };
        for s in 0..N_CHAR {
            t.w[s] = 1;
            t.kid[s] = T + s;
        }
        for m in 0..N_CHAR - 1 {
            t.w[N_CHAR + m] = t.w[2 * m] + t.w[2 * m + 1];
            t.kid[N_CHAR + m] = 2 * m;
        }
        t.link();
        t
    }
    fn link(&mut self) {
        for i in 0..T {
            let k = self.kid[i];
            self.par[k] = i;
            if k < T {
                self.par[k + 1] = i;
            }
        }
        self.par[ROOT] = 0;
    }
    pub fn rebuild(&mut self) {
        let mut nodes: Vec<(u32, usize)> = Vec::new();
        for i in 0..T {
            if self.kid[i] >= T {
                nodes.push(((self.w[i] + 1) / 2, self.kid[i]));
            }
        }
        for m in 0..N_CHAR - 1 {
            let f = nodes[2 * m].0 + nodes[2 * m + 1].0;
            let mut pos = nodes.len();
            while nodes[pos - 1].0 > f {
                pos -= 1;
            }
            nodes.insert(pos, (f, 2 * m));
        }
        for i in 0..T {
            self.w[i] = nodes[i].0;
            self.kid[i] = nodes[i].1;
        }
        self.link();
    }
    pub fn update(&mut self, sym: usize) {
        if self.w[ROOT] == 0x8000 {
            self.rebuild();
        }
        let mut c = self.par[T + sym];
        loop {
            let old = self.w[c];
            let mut l = c;
            while l + 1 < T && self.w[l + 1] == old {
                l += 1;
            }
            self.w[l] = old + 1;
            if l != c {
                let (a, b) = (self.kid[c], self.kid[l]);
                self.kid[c] = b;
                self.kid[l] = a;
                self.par[a] = l;
                if a < T {
                    self.par[a + 1] = l;
                }
                self.par[b] = c;
                if b < T {
                    self.par[b + 1] = c;
                }
            }
            if l == ROOT {
                break;
            }
            c = self.par[l];
        }
    }
    pub fn code(&self, sym: usize) -> Vec<bool> {
        let mut v = Vec::new();
        let mut k = self.par[T + sym];
        while k != ROOT {
            v.push(k % 2 == 1);
            k = self.par[k];
        }
        v.reverse();
        v
    }
}

/// number of bits and left-aligned-in-byte code of the 6-bit position prefix
pub fn pos_prefix(hi: usize) -> (usize, u32) {
    let counts = [(3usize, 1usize), (4, 3), (5, 8), (6, 12), (7, 24), (8, 16)];
    let mut code = 0u32;
    let mut idx = 0usize;
    for (len, n) in counts {
        if hi < idx + n {
            return (len, code + (((hi - idx) as u32) << (8 - len)));
        }
        code += (n as u32) << (8 - len);
        idx += n;
    }
    unreachable!()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Token {
    Lit(u8),
    Copy { len: usize, dist: usize }, // len 3..=60, dist 1..=4096
}

pub struct BitWriter {
    pub bits: Vec<bool>,
}
impl BitWriter {
    pub fn put(&mut self, n: usize, v: u32) {
        for i in (0..n).rev() {
            self.bits.push((v >> i) & 1 == 1);
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.bits.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, &b)| if b { a | 0x80 >> i } else { a })).collect()
    }
}

pub fn sym_of(t: Token) -> usize {
    match t {
        Token::Lit(b) => b as usize,
        Token::Copy { len, .. } => len + 253,
    }
}

/// Serialise tokens. Returns (bytes, longest Huffman code emitted, rebuilds)
pub fn encode_tokens(toks: &[Token]) -> (Vec<u8>, usize) {
    let mut t = Tree::new();
    let mut w = BitWriter { bits: vec![] };
    let mut maxlen = 0;
    for &tok in toks {
        let s = sym_of(tok);
        let code = t.code(s);
        maxlen = maxlen.max(code.len());
        w.bits.extend(code);
        t.update(s);
        if let Token::Copy { dist, .. } = tok {
            let p = dist - 1;
            let (l, c) = pos_prefix(p >> 6);
            w.put(l, c >> (8 - l));
            w.put(6, (p & 63) as u32);
        }
    }
    (w.bytes(), maxlen)
}

pub struct BitReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
}
impl<'a> BitReader<'a> {
    pub fn bit(&mut self) -> Option<usize> {
        let b = *self.data.get(self.pos / 8)?;
        let r = (b >> (7 - self.pos % 8)) & 1;
        self.pos += 1;
        Some(r as usize)
    }
}

/// Decode exactly n bytes. None: the stream ends early or its last copy overruns n.
/// Also returns the tokens and bits used.
pub fn decode(data: &[u8], n: usize) -> Option<(Vec<u8>, Vec<Token>, usize)> {
    let mut t = Tree::new();
    let mut r = BitReader { data, pos: 0 };
    let mut hist = vec![0x20u8; WINDOW];
    let mut toks = vec![];
    while hist.len() < WINDOW + n {
        let mut c = t.kid[ROOT];
        while c < T {
            c = t.kid[c + r.bit()?];
        }
        let s = c - T;
        t.update(s);
        if s < 256 {
            hist.push(s as u8);
            toks.push(Token::Lit(s as u8));
        } else {
            let mut v = 0usize;
            // prefix
            let mut plen = 0usize;
            let hi = 'f: loop {
                v = v * 2 + r.bit()?;
                plen += 1;
                for hi in 0..64 {
                    let (l, c) = pos_prefix(hi);
                    if l == plen && (c >> (8 - l)) as usize == v {
                        break 'f hi;
                    }
                }
            };
            let mut lo = 0usize;
            for _ in 0..6 {
                lo = lo * 2 + r.bit()?;
            }
            let dist = (hi << 6 | lo) + 1;
            // positions beyond the window wrap (the window holds the last 2048 bytes)
            let d = (dist - 1) % WINDOW + 1;
            let len = s - 253;
            if hist.len() + len > WINDOW + n {
                return None;
            }
            for _ in 0..len {
                hist.push(hist[hist.len() - d]);
            }
            toks.push(Token::Copy { len, dist });
        }
    }
    Some((hist[WINDOW..].to_vec(), toks, r.pos))
}
