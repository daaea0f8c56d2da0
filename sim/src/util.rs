//! Small independent re-implementations, so that the oracle shares no codec with the library.

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
const B58: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

pub fn b64(data: &[u8]) -> String {
    let mut s = String::with_capacity(data.len() * 4 / 3 + 3);
    for c in data.chunks(3) {
        let v = (u32::from(c[0]) << 16) | (u32::from(*c.get(1).unwrap_or(&0)) << 8) | u32::from(*c.get(2).unwrap_or(&0));
        for i in 0..=c.len() {
            s.push(B64[(v >> (18 - 6 * i)) as usize & 63] as char);
        }
    }
    s
}

/// Strict (canonical, unpadded) base64url.
pub fn unb64(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 4 == 1 {
        return None;
    }
    let mut out = Vec::with_capacity(b.len() * 3 / 4);
    for c in b.chunks(4) {
        let mut v = 0u32;
        for (i, x) in c.iter().enumerate() {
            let d = match x {
                b'A'..=b'Z' => x - b'A',
                b'a'..=b'z' => x - b'a' + 26,
                b'0'..=b'9' => x - b'0' + 52,
                b'-' => 62,
                b'_' => 63,
                _ => return None,
            };
            v |= u32::from(d) << (18 - 6 * i);
        }
        let n = c.len() - 1;
        if c.len() < 4 && (v << (8 + 8 * n as u32)) != 0 {
            return None;
        }
        for i in 0..n {
            out.push((v >> (16 - 8 * i)) as u8);
        }
    }
    Some(out)
}

pub fn b58(data: &[u8]) -> String {
    let mut digits: Vec<u8> = vec![];
    for &b in data {
        let mut carry = u32::from(b);
        for d in digits.iter_mut() {
            carry += u32::from(*d) << 8;
            *d = (carry % 58) as u8;
            carry /= 58;
        }
        while carry > 0 {
            digits.push((carry % 58) as u8);
            carry /= 58;
        }
    }
    let zeros = data.iter().take_while(|b| **b == 0).count();
    let mut s = "1".repeat(zeros);
    s.extend(digits.iter().rev().map(|d| B58[*d as usize] as char));
    s
}

pub fn unb58(s: &str) -> Option<Vec<u8>> {
    let mut bytes: Vec<u8> = vec![];
    for c in s.bytes() {
        let mut carry = B58.iter().position(|x| *x == c)? as u32;
        for b in bytes.iter_mut() {
            carry += u32::from(*b) * 58;
            *b = carry as u8;
            carry >>= 8;
        }
        while carry > 0 {
            bytes.push(carry as u8);
            carry >>= 8;
        }
    }
    let zeros = s.bytes().take_while(|b| *b == b'1').count();
    bytes.extend(std::iter::repeat(0).take(zeros));
    bytes.reverse();
    Some(bytes)
}

pub fn hex(data: &[u8]) -> String {
    data.iter().map(|b| format!("{b:02x}")).collect()
}

pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 2 != 0 {
        return None;
    }
    b.chunks(2)
        .map(|c| Some(((c[0] as char).to_digit(16)? * 16 + (c[1] as char).to_digit(16)?) as u8))
        .collect()
}

/// RFC 3986 percent decoding; with `plus` also the form rule that '+' means space.
pub fn percent_decode(s: &str, plus: bool) -> Option<String> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'%' => {
                let h = (*b.get(i + 1)? as char).to_digit(16)?;
                let l = (*b.get(i + 2)? as char).to_digit(16)?;
                out.push((h * 16 + l) as u8);
                i += 3;
            }
            b'+' if plus => {
                out.push(b' ');
                i += 1;
            }
            c => {
                out.push(c);
                i += 1;
            }
        }
    }
    String::from_utf8(out).ok()
}

pub fn fnv(h: &mut u64, data: &[u8]) {
    for b in data {
        *h ^= u64::from(*b);
        *h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
}

pub fn hash_bytes(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325;
    fnv(&mut h, data);
    crate::seam::splitmix(h)
}

pub fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn codecs() {
        for n in 0..70usize {
            let d: Vec<u8> = (0..n).map(|i| (i * 37 + n) as u8).collect();
            assert_eq!(unb64(&b64(&d)).unwrap(), d);
            assert_eq!(unb58(&b58(&d)).unwrap(), d);
            assert_eq!(unhex(&hex(&d)).unwrap(), d);
        }
        assert_eq!(b64(b"\xff\xfe"), "__4");
        assert!(unb64("__5").is_none() && unb64("A").is_none() && unb64("__4=").is_none());
        assert_eq!(b58(b"hello world"), "StV1DL6CwTryKyV");
        assert_eq!(percent_decode("a%20b+c%2B", true).unwrap(), "a b c+");
    }
}

#[repr(C)]
struct ITimerVal {
    it_interval: libc::timeval,
    it_value: libc::timeval,
}

extern "C" {
    fn setitimer(which: libc::c_int, new: *const ITimerVal, old: *mut ITimerVal) -> libc::c_int;
}

/// A run that uses more processor time than this is ended.
pub fn limit_cpu(seconds: i64) {
    // SAFETY: plain setitimer (ITIMER_PROF = 2); SIGPROF ends the process
    unsafe {
        let v = ITimerVal { it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 }, it_value: libc::timeval { tv_sec: seconds, tv_usec: 0 } };
        setitimer(2, &v, std::ptr::null_mut());
    }
}
