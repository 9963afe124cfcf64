//! Independent statement of the TChannel wire format (written from the protocol document, not from the crate).
use std::collections::HashMap;

pub const MAX_PAYLOAD: usize = 65535 - 16;

pub fn frame(id: u32, ty: u8, payload: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    v.extend_from_slice(&((payload.len() + 16) as u16).to_be_bytes());
    v.push(ty);
    v.push(0);
    v.extend_from_slice(&id.to_be_bytes());
    v.extend_from_slice(&[0; 8]);
    v.extend_from_slice(payload);
    v
}
pub fn str1(s: &str) -> Vec<u8> {
    let mut v = vec![s.len() as u8];
    v.extend_from_slice(s.as_bytes());
    v
}
pub fn str2(s: &str) -> Vec<u8> {
    let mut v = (s.len() as u16).to_be_bytes().to_vec();
    v.extend_from_slice(s.as_bytes());
    v
}
pub fn tracing(t: (u64, u64, u64, u8)) -> Vec<u8> {
    let mut v = vec![];
    v.extend_from_slice(&t.0.to_be_bytes());
    v.extend_from_slice(&t.1.to_be_bytes());
    v.extend_from_slice(&t.2.to_be_bytes());
    v.push(t.3);
    v
}
pub fn args(csum: u8, sum: Option<u32>, chunks: &[Vec<u8>]) -> Vec<u8> {
    let mut v = vec![csum];
    if let Some(s) = sum {
        v.extend_from_slice(&s.to_be_bytes());
    }
    for c in chunks {
        v.extend_from_slice(&(c.len() as u16).to_be_bytes());
        v.extend_from_slice(c);
    }
    v
}
pub fn headers1(h: &[(String, String)]) -> Vec<u8> {
    let mut v = vec![h.len() as u8];
    for (k, x) in h {
        v.extend(str1(k));
        v.extend(str1(x));
    }
    v
}
pub fn headers2(h: &[(String, String)]) -> Vec<u8> {
    let mut v = (h.len() as u16).to_be_bytes().to_vec();
    for (k, x) in h {
        v.extend(str2(k));
        v.extend(str2(x));
    }
    v
}
pub fn call_req(flags: u8, ttl: u32, t: (u64, u64, u64, u8), service: &str, h: &[(String, String)], tail: &[u8]) -> Vec<u8> {
    let mut v = vec![flags];
    v.extend_from_slice(&ttl.to_be_bytes());
    v.extend(tracing(t));
    v.extend(str1(service));
    v.extend(headers1(h));
    v.extend_from_slice(tail);
    v
}
pub fn call_res(flags: u8, code: u8, t: (u64, u64, u64, u8), h: &[(String, String)], tail: &[u8]) -> Vec<u8> {
    let mut v = vec![flags, code];
    v.extend(tracing(t));
    v.extend(headers1(h));
    v.extend_from_slice(tail);
    v
}

pub struct Cur<'a>(pub &'a [u8]);
impl<'a> Cur<'a> {
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    pub fn u8(&mut self) -> Option<u8> {
        self.take(1).map(|b| b[0])
    }
    pub fn u16(&mut self) -> Option<u16> {
        self.take(2).map(|b| u16::from_be_bytes([b[0], b[1]]))
    }
    pub fn u32(&mut self) -> Option<u32> {
        self.take(4).map(|b| u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
    }
    pub fn s1(&mut self) -> Option<String> {
        let n = self.u8()? as usize;
        String::from_utf8(self.take(n)?.to_vec()).ok()
    }
    pub fn s2(&mut self) -> Option<String> {
        let n = self.u16()? as usize;
        String::from_utf8(self.take(n)?.to_vec()).ok()
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Call {
    pub flags: u8,
    pub ttl_or_code: u32,
    pub service: String,
    pub headers: HashMap<String, String>,
    pub csum: u8,
    pub chunks: Vec<Vec<u8>>,
}

pub fn parse_chunks(cur: &mut Cur) -> Option<Vec<Vec<u8>>> {
    let mut v = vec![];
    while !cur.0.is_empty() {
        let n = cur.u16()? as usize;
        v.push(cur.take(n)?.to_vec());
    }
    Some(v)
}
/// kind: 3 call req, 4 call res, 0x13/0x14 continuation
pub fn parse_call(kind: u8, payload: &[u8]) -> Option<Call> {
    let mut c = Cur(payload);
    let flags = c.u8()?;
    let mut ttl_or_code = 0;
    let mut service = String::new();
    let mut headers = HashMap::new();
    if kind == 3 || kind == 4 {
        ttl_or_code = if kind == 3 { c.u32()? } else { c.u8()? as u32 };
        c.take(25)?;
        if kind == 3 {
            service = c.s1()?;
        }
        let n = c.u8()?;
        for _ in 0..n {
            let k = c.s1()?;
            let v = c.s1()?;
            headers.insert(k, v);
        }
    }
    let csum = c.u8()?;
    if csum != 0 {
        c.u32()?;
    }
    let chunks = parse_chunks(&mut c)?;
    Some(Call { flags, ttl_or_code, service, headers, csum, chunks })
}
/// Protocol rule: within a frame each further chunk starts the next argument; the first chunk of a
/// continuation frame continues the argument the previous frame ended in.
pub fn reassemble(frames: &[Vec<Vec<u8>>]) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    for (i, f) in frames.iter().enumerate() {
        for (j, c) in f.iter().enumerate() {
            if i > 0 && j == 0 && !out.is_empty() {
                out.last_mut().unwrap().extend_from_slice(c);
            } else {
                out.push(c.clone());
            }
        }
    }
    out
}
