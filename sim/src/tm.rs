//! Times as nanoseconds since the epoch, with RFC 3339 text, independent of chrono.
use crate::seam::NS;

/// chrono's representable range (years -262144..=262143), minus a margin
pub const MAX_NS: i128 = (8_210_266_876_799 - 2 * 86_400) * NS;
pub const MIN_NS: i128 = (-8_334_601_228_800 + 2 * 86_400) * NS;

fn civil(days: i128) -> (i128, u32, u32) {
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    (yoe + era * 400 + i128::from(m <= 2), m, d)
}

fn days(y: i128, m: u32, d: u32) -> i128 {
    let y = y - i128::from(m <= 2);
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let mp = i128::from((m + 9) % 12);
    let doy = (153 * mp + 2) / 5 + i128::from(d) - 1;
    era * 146_097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719_468
}

/// RFC 3339 with an offset in minutes; the fraction has 0, 3, 6 or 9 digits as needed
pub fn render(t: i128, offset_min: i32) -> String {
    let local = t + i128::from(offset_min) * 60 * NS;
    let (secs, ns) = (local.div_euclid(NS), local.rem_euclid(NS));
    let (dayno, sod) = (secs.div_euclid(86_400), secs.rem_euclid(86_400));
    let (y, m, d) = civil(dayno);
    let frac = if ns == 0 {
        String::new()
    } else if ns % 1_000_000 == 0 {
        format!(".{:03}", ns / 1_000_000)
    } else if ns % 1000 == 0 {
        format!(".{:06}", ns / 1000)
    } else {
        format!(".{ns:09}")
    };
    let zone = if offset_min == 0 {
        "Z".to_owned()
    } else {
        format!("{}{:02}:{:02}", if offset_min < 0 { '-' } else { '+' }, offset_min.abs() / 60, offset_min.abs() % 60)
    };
    let year = if (0..=9999).contains(&y) { format!("{y:04}") } else { format!("{}{:04}", if y < 0 { '-' } else { '+' }, y.abs()) };
    format!("{year}-{m:02}-{d:02}T{:02}:{:02}:{:02}{frac}{zone}", sod / 3600, sod / 60 % 60, sod % 60)
}

/// Strict RFC 3339 (plus expanded signed years). None: not of that form or not a valid instant.
pub fn parse(s: &str) -> Option<i128> {
    let b = s.as_bytes();
    let (neg, mut i) = match b.first()? {
        b'+' => (false, 1),
        b'-' => (true, 1),
        _ => (false, 0),
    };
    let ystart = i;
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
    }
    if i - ystart < 4 || (ystart == 0 && i - ystart != 4) || i - ystart > 6 {
        return None;
    }
    let mut y: i128 = s[ystart..i].parse().ok()?;
    if neg {
        y = -y;
    }
    let two = |i: usize| -> Option<u32> {
        let x = b.get(i..i + 2)?;
        x.iter().all(u8::is_ascii_digit).then(|| u32::from(x[0] - b'0') * 10 + u32::from(x[1] - b'0'))
    };
    let lit = |i: usize, c: u8| b.get(i) == Some(&c);
    let (m, d) = (two(i + 1)?, two(i + 4)?);
    let (hh, mm, ss) = (two(i + 7)?, two(i + 10)?, two(i + 13)?);
    if !(lit(i, b'-') && lit(i + 3, b'-') && lit(i + 6, b'T') && lit(i + 9, b':') && lit(i + 12, b':')) {
        return None;
    }
    i += 15;
    let mut ns: i128 = 0;
    if lit(i, b'.') {
        i += 1;
        let st = i;
        let mut unit = NS / 10;
        while i < b.len() && b[i].is_ascii_digit() {
            ns += i128::from(b[i] - b'0') * unit;
            unit /= 10;
            i += 1;
        }
        if i == st {
            return None;
        }
    }
    let off: i128 = if lit(i, b'Z') && i + 1 == b.len() {
        0
    } else if (lit(i, b'+') || lit(i, b'-')) && b.len() == i + 6 && lit(i + 3, b':') {
        let v = i128::from(two(i + 1)? * 60 + two(i + 4)?);
        if two(i + 1)? > 23 || two(i + 4)? > 59 {
            return None;
        }
        if lit(i, b'-') {
            -v
        } else {
            v
        }
    } else {
        return None;
    };
    let leap = (y.rem_euclid(4) == 0 && y.rem_euclid(100) != 0) || y.rem_euclid(400) == 0;
    let dim = match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 if leap => 29,
        2 => 28,
        _ => return None,
    };
    if d == 0 || d > dim || hh > 23 || mm > 59 || ss > 59 {
        return None;
    }
    let t = (days(y, m, d) * 86_400 + i128::from(hh * 3600 + mm * 60 + ss) - off * 60) * NS + ns;
    (MIN_NS..=MAX_NS).contains(&t).then_some(t)
}

#[cfg(test)]
mod tests {
    use super::*;
    use chrono::{DateTime, TimeZone, Utc};
    #[test]
    fn agrees_with_chrono() {
        let mut s = 7u64;
        for i in 0..20000 {
            s = crate::seam::splitmix(s);
            let secs = (s as i64) % 253_402_300_000;
            let secs = if i % 2 == 0 { secs.abs() } else { secs.abs() % 5_000_000_000 };
            let ns = (crate::seam::splitmix(s) % 1_000_000_000) as u32;
            let ns = match i % 5 {
                0 => 0,
                1 => ns / 1_000_000 * 1_000_000,
                2 => ns / 1000 * 1000,
                _ => ns,
            };
            let t = i128::from(secs) * NS + i128::from(ns);
            let c: DateTime<Utc> = Utc.timestamp_opt(secs, ns).unwrap();
            assert_eq!(serde_json::to_value(c).unwrap().as_str().unwrap(), render(t, 0));
            assert_eq!(parse(&render(t, 0)), Some(t));
            let off = (s % 1600) as i32 - 800;
            let r = render(t, off);
            if !r.starts_with('+') && !r.starts_with('-') {
                let back: DateTime<Utc> = serde_json::from_value(r.clone().into()).unwrap();
                assert_eq!(back, c, "{r}");
                assert_eq!(parse(&r), Some(t));
            }
        }
        let max = DateTime::<Utc>::MAX_UTC;
        assert!(i128::from(max.timestamp()) * NS >= MAX_NS, "{}", max.timestamp());
        assert!(i128::from(DateTime::<Utc>::MIN_UTC.timestamp()) * NS <= MIN_NS, "{}", DateTime::<Utc>::MIN_UTC.timestamp());
    }
}

/// the text chrono's `Display` gives a UTC instant
pub fn display(t: i128) -> String {
    render(t, 0).replacen('T', " ", 1).replacen('Z', " UTC", 1)
}
