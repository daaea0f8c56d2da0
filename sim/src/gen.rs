//! Values of a run: everything is drawn from the tape, 0 being the plainest choice.
use crate::seam::{splitmix, NS};
use crate::tape::Tape;
use crate::{tm, util};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};

const WORDS: [&str; 12] = ["alpha", "tango", "delta", "kilo", "omega", "zulu", "sierra", "quebec", "victor", "papa", "lima", "echo"];
pub const ODD: [&str; 22] = [
    "ü", "İstanbul", "a.b.c", "x y", "50%", "%2e%2B", "a+b", "q?x=1&y=2#f", "\"quoted\"", "back\\slash", "\u{0}", "\u{1F511}", "\u{202e}rtl", "tab\tnl\n", "ſ", "K",
    "e\u{301}", "'", "</script>", ".", "..", "\u{7f}",
];

/// an ordinary unguessable identifier
pub fn token(t: &mut Tape, n: &mut u64) -> String {
    *n += 1;
    let r = splitmix(u64::from(t.below(1 << 30)) ^ (*n << 32));
    format!("{}-{:08x}", WORDS[(*n % 12) as usize], r as u32)
}

/// a value an issuer or client may legitimately choose, ordinary or not
pub fn secret(t: &mut Tape, n: &mut u64, weird: u32) -> String {
    let mut base = token(t, n);
    if t.chance(300) {
        // what deployments draw
        let (a, b) = (splitmix(*n ^ u64::from(t.below(1 << 30)) << 20), splitmix(*n ^ 0xabcd));
        base = match t.below(5) {
            0 => format!("{:08x}-{:04x}-4{:03x}-a{:03x}-{:012x}", a as u32, (a >> 32) as u16, (a >> 48) & 0xfff, (b >> 52) & 0xfff, b & 0xffff_ffff_ffff),
            1 => format!("{a:016x}{b:016x}"),
            2 => util::b64(&[a.to_be_bytes(), b.to_be_bytes()].concat()),
            3 => (a % 10u64.pow(t.range(6, 18) as u32)).to_string(),
            _ => util::b64(&a.to_be_bytes()).replace(['-', '_'], "x"),
        };
    }
    if !t.chance(weird) {
        return base;
    }
    match t.below(22) {
        20 | 21 => {
            let i = t.below(base.len() as u32) as usize;
            format!("{}{}{}", &base[..i], t.pick(&["+", " ", "/", "=", "_", ".", "~", "%2B", "%20", ":", "\u{e9}", "&", "'", "+b+"]), &base[i..])
        }
        12 => String::new(),
        13 => {
            let (a, b) = (splitmix(*n), splitmix(*n ^ 0xff));
            let u = format!("{:08x}-{:04x}-4{:03x}-a{:03x}-{:012x}", a as u32, (a >> 32) as u16, (a >> 48) & 0xfff, (b >> 52) & 0xfff, b & 0xffff_ffff_ffff);
            match t.below(4) {
                0 => u,
                1 => u.to_uppercase(),
                2 => format!("urn:uuid:{u}"),
                _ => format!("{{{u}}}"),
            }
        }
        14 => format!("{}{base}{}", t.pick(&["https://client.example.org/", "https://", "http://", "https://www."]), t.pick(&["", "/", "?a=b", "/cb#f", ":443"])),
        15 => format!("did:{}:{base}{}", t.pick(&["example", "web", "key"]), t.pick(&["", "#key-1", "?a=b"])),
        16 => format!("{base}@{}.example.org", t.pick(&WORDS)),
        17 => match t.below(4) {
            0 => splitmix(*n).to_string(),
            1 => (splitmix(*n) >> 40).to_string(),
            2 => format!("-{}", splitmix(*n) >> 40),
            _ => format!("{}.0", splitmix(*n) >> 40),
        },
        18 => util::b64(format!("{{\"alg\":\"none\"}}{base}").as_bytes()) + "." + &util::b64(base.as_bytes()) + ".",
        19 => format!("{:016x}{:016x}", splitmix(*n), splitmix(*n ^ 7)),
        9 => near(t, &base),
        10 => format!("{base}{}", t.pick(&EDGE)),
        11 => util::b64(base.as_bytes()) + "=",
        0 => format!("{base}{}", t.pick(&ODD)),
        1 => format!("{}{base}", t.pick(&ODD)),
        2 => format!("{}.{}.{}", t.pick(&WORDS), base, t.pick(&ODD)),
        3 => base.repeat(t.range(2, 400) as usize),
        4 => base.to_uppercase(),
        5 => format!("0{}", splitmix(*n) % 1_000_000),
        6 => (*t.pick(&ODD)).to_owned(),
        7 => util::b64(base.as_bytes()),
        _ => " ".to_owned() + &base,
    }
}

/// what a lenient comparison may ignore at either end
const EDGE: [&str; 44] = [
    "x", "=", "==", "/", ".", " ", "\t", "\n", "\r\n", "\0", "?", "#", "&", "+", "-", "_", "~", ";", ",", "|", ":", "@", "!", "*", "'", "\"", "\\", "\u{a0}", "\u{200b}",
    "\u{feff}", "\u{301}", "\u{7f}", "%20", "%00", "%", ":443", "/.", "//", "?x=1", "#x", "0", "1", "a", "S",
];

/// a long string whose characters straddle whatever byte a fixed limit falls on
pub fn long(t: &mut Tape) -> String {
    let n = *t.pick(&[8usize, 16, 20, 24, 32, 40, 50, 64, 80, 100, 120, 128, 160, 200, 250, 255, 256, 300, 400, 500, 512, 1000, 1024, 2048, 4096]);
    let head = *t.pick(&["", "#", "a", "did:", "did:example:", "did:example:a#", "https://", "?", "/", ".", "-", "{", "["]);
    let mut s = head.to_owned();
    match t.below(4) {
        0 => {}
        1 => s.push('a'),
        _ => s.extend(std::iter::repeat('a').take(n.saturating_sub(head.len() + t.range(1, 4) as usize))),
    }
    let c = *t.pick(&['\u{e9}', '\u{20ac}', '\u{1F511}']);
    while s.len() < n + 8 {
        s.push(c);
    }
    s
}

/// something like `s` but not `s`
pub fn near(t: &mut Tape, s: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    let out = match t.below(10) {
        8 => near_id(t, s),
        9 => special(t, s),
        0 => format!("{s}{}", t.pick(&EDGE)),
        1 => format!("{}{s}", t.pick(&EDGE)),
        2 => {
            // cut, at either end
            let n = if t.chance(500) { 1 } else { t.below(cs.len() as u32 + 1) as usize };
            let keep = cs.len().saturating_sub(n);
            if t.chance(500) {
                cs[..keep].iter().collect()
            } else {
                cs[cs.len() - keep..].iter().collect()
            }
        }
        3 if !cs.is_empty() => {
            // one character differs
            let i = match t.below(4) {
                0 => cs.len() - 1,
                1 => 0,
                _ => t.below(cs.len() as u32) as usize,
            };
            let mut c = cs.clone();
            match t.below(5) {
                0 => c[i] = flip_case(c[i]),
                1 => c[i] = other(c[i]),
                2 if i + 1 < c.len() => c.swap(i, i + 1),
                3 => c.insert(i, c[i]),
                _ => {
                    c.remove(i);
                }
            }
            c.into_iter().collect()
        }
        4 if !cs.is_empty() => {
            // the same up to some point, or from some point
            let i = t.below(cs.len() as u32) as usize;
            let tail = t.chance(500);
            cs.iter().enumerate().map(|(k, c)| if (k >= i) == tail { other(*c) } else { *c }).collect()
        }
        5 if !cs.is_empty() => {
            // an ignorable character inside
            let i = t.below(cs.len() as u32) as usize;
            let e = *t.pick(&EDGE);
            cs[..i].iter().collect::<String>() + e + &cs[i..].iter().collect::<String>()
        }
        6 => match t.below(14) {
            0 => s.to_uppercase(),
            1 => s.to_lowercase(),
            2 => s.trim().to_owned(),
            3 => s.replace("https://", "http://"),
            4 => s.replace("https://", ""),
            5 => util::percent_decode(s, true).unwrap_or_default(),
            6 => s.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{b:02X}") }).collect(),
            7 => s.chars().filter(|c| c.is_alphanumeric()).collect(),
            8 => s.chars().filter(|c| !c.is_whitespace() && !c.is_control()).collect(),
            9 => s.chars().map(|c| match c { '-' => '+', '_' => '/', '+' => '-', '/' => '_', c => c }).collect(),
            10 => s.trim_end_matches(|c: char| !c.is_alphanumeric()).to_owned(),
            11 => format!("\"{s}\""),
            12 => s.trim_start_matches('0').to_owned(),
            _ => s.replace('-', ""),
        },
        _ => match t.below(9) {
            6 => long(t),
            7 => format!("{s}{}", long(t)),
            8 => format!("{}{}", t.pick(&EDGE), long(t)),
            0 => String::new(),
            1 => cs.iter().rev().collect(),
            2 => format!("{s}.{s}"),
            3 => format!("{s} {s}"),
            4 => util::b64(s.as_bytes()),
            _ => "x".repeat(s.len().min(5000)),
        },
    };
    if out == s {
        format!("{s}~")
    } else {
        out
    }
}

/// A different identifier which some normalisation of URLs, DIDs, numbers or text takes for the same.
fn near_id(t: &mut Tape, s: &str) -> String {
    if let Some((scheme, rest)) = s.split_once("://") {
        let cut = rest.find(['/', '?', '#']).unwrap_or(rest.len());
        let (host, path) = rest.split_at(cut);
        return match t.below(13) {
            12 => escaped(t, s),
            0 => format!("{scheme}://{}{rest}", t.pick(&["www.", "m.", "api.", "user@", "user:pw@", "x."])),
            1 => match host.strip_prefix("www.") {
                Some(h) => format!("{scheme}://{h}{path}"),
                None => format!("{scheme}://{}{path}", host.split_once('.').map_or(host, |x| x.1)),
            },
            2 => match host.split_once(':') {
                Some((h, _)) => format!("{scheme}://{h}{path}"),
                None => format!("{scheme}://{host}:{}{path}", t.pick(&["443", "80", "8443", "0443", ""])),
            },
            3 => format!("{scheme}://{host}.{path}"),
            4 => format!("{}://{rest}", t.pick(&["http", "HTTPS", "openid", "ftp", "https:", "wss", ""])),
            5 => match s.strip_suffix('/') {
                Some(x) if t.chance(500) => x.to_owned(),
                None if t.chance(400) => format!("{s}/"),
                _ => format!("{s}{}", t.pick(&["//", "/.", "/./", "/x/..", "/index.html", "/default", "/.well-known/openid-credential-issuer", "/token"])),
            },
            6 => format!("{s}{}", t.pick(&["?", "?x=1", "&x=1", ";x", "#", "#x", "%20", "%2F", "?lang=en"])),
            7 => format!("{scheme}://{host}"),
            8 => format!("{scheme}://{host}{}", path.rsplit_once('/').map_or("", |x| x.0)),
            9 => format!("{scheme}://{host}/{path}"),
            10 => format!("{scheme}://{}{path}", host.to_uppercase()),
            _ => s.replace("%7E", "~").replace("ü", "%C3%BC").replace("issuer.", "issuers."),
        };
    }
    if let Some(rest) = s.strip_prefix("did:") {
        let (method, id) = rest.split_once(':').unwrap_or((rest, ""));
        return match t.below(9) {
            8 => escaped(t, s),
            0 => format!("did:{}:{id}", t.pick(&["key", "jwk", "web", "example", "ex", "KEY"])),
            1 => format!("DID:{rest}"),
            2 => rest.to_owned(),
            3 => id.to_owned(),
            4 => s.split(['#', '?']).next().unwrap_or(s).to_owned(),
            5 => format!("did:{method}:{}", id.to_lowercase()),
            6 => format!("{s}{}", t.pick(&["#0", "#keys-1", "?versionId=1", ";service=x", "/path", ":x", "#", "%20"])),
            _ => format!("did:{method}:x:{id}"),
        };
    }
    match t.below(14) {
        12 | 13 => escaped(t, s),
        0 => format!("{s}{}", t.pick(&["=", "==", "A", "-1", "@x", "+x", ":x", "#x", "?x", "/x", ".x", ";x", ",x", "|x", "&x", "_", "*", "%", "\\"])),
        1 => format!("{}{s}", t.pick(&["Bearer ", "urn:", "urn:uuid:", "client:", "\u{feff}", "v1.", "0x", "+", "-", "0", "*", "%"])),
        2 => match s.find(|c: char| !c.is_alphanumeric()) {
            Some(i) => s[..i].to_owned(),
            None => format!("{s}-{s}"),
        },
        3 => match s.rfind(|c: char| !c.is_alphanumeric()) {
            Some(i) => s[i..].chars().skip(1).collect(),
            None => format!("{s},{s}"),
        },
        4 => s.chars().map(|c| if c.is_ascii_graphic() { char::from_u32(c as u32 + 0xFEE0).unwrap_or(c) } else { c }).collect(), // full width
        5 => s.chars().map(|c| match c { 'e' => 'é', 'é' => 'e', 'ü' => 'u', 'u' => 'ü', 'i' => 'ı', 'ß' => 's', 'o' => '0', 'l' => '1', 'I' => 'l', c => c }).collect(),
        6 => match s.parse::<u128>() {
            Ok(v) => (v ^ (1 << t.below(64))).to_string(),
            Err(_) => s.chars().filter(|c| !c.is_ascii_digit()).collect(),
        },
        7 => s.chars().filter(char::is_ascii).collect(),
        8 => s.chars().map(|c| if c.is_ascii() { c } else { '?' }).collect(),
        9 => {
            // the same letters in another order
            let mut c: Vec<char> = s.chars().collect();
            c.sort_unstable();
            c.into_iter().collect()
        }
        10 => {
            let c: Vec<char> = s.chars().collect();
            if c.is_empty() { "0".to_owned() } else { let k = t.below(c.len() as u32) as usize; c[k..].iter().chain(&c[..k]).collect() }
        }
        _ => util::percent_decode(&s.replace('+', "%2B"), false).unwrap_or_default() + "\u{301}",
    }
}

/// one character, or each of a kind, written in some escaped form
pub fn escaped(t: &mut Tape, s: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    if cs.is_empty() {
        return "%00".to_owned();
    }
    let i = match t.below(3) {
        0 => 0,
        1 => cs.len() - 1,
        _ => t.below(cs.len() as u32) as usize,
    };
    let all = t.chance(200);
    let style = t.below(7);
    cs.iter()
        .enumerate()
        .map(|(k, c)| {
            if k != i && !(all && *c == cs[i]) {
                return c.to_string();
            }
            let mut b = [0; 4];
            let utf8 = c.encode_utf8(&mut b).as_bytes();
            match style {
                0 | 1 => utf8.iter().map(|b| format!("%{b:02X}")).collect(),
                2 => utf8.iter().map(|b| format!("%{b:02x}")).collect(),
                3 => utf8.iter().map(|b| format!("%25{b:02X}")).collect(),
                4 => format!("\\u{:04x}", *c as u32),
                5 => format!("&#{};", *c as u32),
                _ => format!("\\{c}"),
            }
        })
        .collect()
}

/// one of the characters that are no letters or digits stands for another, or is left out
fn special(t: &mut Tape, s: &str) -> String {
    let mut odd: Vec<char> = s.chars().filter(|c| !c.is_ascii_alphanumeric()).collect();
    odd.sort_unstable();
    odd.dedup();
    if odd.is_empty() {
        let i = t.below(s.len() as u32 + 1) as usize;
        return format!("{}{}{}", &s[..i], t.pick(&[" ", "-", "_", "+", ".", "\n", "\0", "\u{ad}"]), &s[i..]);
    }
    let c = *t.pick(&odd);
    let by = *t.pick(&["", " ", "+", "-", "_", ".", "/", ":", "%20", "\u{2010}", "?"]);
    if t.chance(700) {
        s.replace(c, by)
    } else {
        s.replacen(c, by, 1)
    }
}

fn flip_case(c: char) -> char {
    if c.is_ascii_lowercase() {
        c.to_ascii_uppercase()
    } else if c.is_ascii_uppercase() {
        c.to_ascii_lowercase()
    } else {
        other(c)
    }
}

fn other(c: char) -> char {
    match c {
        'a' => 'а', // Cyrillic
        '0' => 'O',
        'k' => 'K',
        's' => 'ſ',
        c if c.is_ascii_alphanumeric() => ((c as u8) ^ 1) as char,
        _ => '_',
    }
}

pub fn text(t: &mut Tape, weird: u32) -> String {
    if t.chance(weird) {
        let a = *t.pick(&ODD);
        let b = *t.pick(&WORDS);
        match t.below(5) {
            4 => long(t),
            0 => a.to_owned(),
            1 => format!("{b}{a}"),
            2 => String::new(),
            _ => a.repeat(t.range(1, 60) as usize),
        }
    } else {
        (*t.pick(&WORDS)).to_owned()
    }
}

pub fn issuer_url(t: &mut Tape, i: usize, weird: u32) -> String {
    let base = format!("https://issuer{i}.example.com");
    if !t.chance(weird) {
        return base;
    }
    match t.below(11) {
        8 => format!("https://www.issuer{i}.example.com"),
        9 => format!("{base}:443"),
        0 => format!("{base}/"),
        1 => format!("{base}/tenant/{}", t.pick(&WORDS)),
        2 => format!("{base}:8443"),
        3 => format!("{base}/a?b=c&d=e"),
        4 => format!("{base}/ü"),
        5 => "https://ISSUER.example.com".to_owned(),
        6 => format!("{base}/%7Euser"),
        7 => "https://issuer.example.com/".to_owned() + &"p".repeat(t.range(1, 3000) as usize),
        _ => format!("https://issuer.example.com/{i}"),
    }
}

pub fn lifetime(t: &mut Tape, weird: u32) -> u32 {
    if !t.chance(weird) {
        return *t.pick(&[300, 60, 3600, 86_400, 30]);
    }
    let fixed = [0, 1, 2, 65_535, 65_536, 1 << 24, i32::MAX as u32 - 1, i32::MAX as u32, 1 << 31, u32::MAX - 1, u32::MAX, 4_294_968, 9_223_372];
    let k = t.below(fixed.len() as u32 + 6) as usize;
    match fixed.get(k) {
        Some(v) => *v,
        None => {
            let bits = t.range(1, 32);
            ((u64::from(t.below(1 << 30)) << 2 | u64::from(t.below(4))) & ((1u64 << bits) - 1)) as u32
        }
    }
}

/// how many of something: now and then a crowd
pub fn crowd(t: &mut Tape, lo: u32, hi: u32) -> u32 {
    if t.chance(20) {
        *t.pick(&[5, 8, 9, 10, 11, 16, 17, 20, 21, 32, 33, 50, 51, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257])
    } else {
        t.range(lo, hi)
    }
}

fn subject(t: &mut Tape, weird: u32) -> Value {
    let mut m = Map::new();
    let n = crowd(t, 0, 2);
    for i in 0..n {
        let mut s = Map::new();
        if t.chance(400) {
            s.insert("mandatory".into(), json!(t.chance(500)));
        }
        if t.chance(300) {
            let name = if t.chance(200) { "valueType" } else { "value_type" };
            s.insert(name.into(), json!(text(t, weird)));
        }
        if t.chance(250) {
            // a claim that is a dictionary of claims, or a namespace
            for _ in 0..t.range(1, 2) {
                let name = text(t, weird);
                let inner = match t.below(5) {
                    0 => json!({}),
                    1 => json!({"mandatory": true, "value_type": "string", "display": [{"name": text(t, weird), "locale": "en-US"}]}),
                    2 => json!({"display": [{"name": text(t, weird)}], text(t, weird): {"mandatory": false}}),
                    3 => json!({text(t, weird): {text(t, weird): {text(t, weird): {}}}}),
                    _ => json!({text(t, weird): {"value_type": text(t, weird)}, "n": {}}),
                };
                s.insert(name, inner);
            }
        }
        if t.chance(300) {
            let d: Vec<Value> = (0..t.below(3))
                .map(|_| {
                    let mut d = Map::new();
                    if t.chance(700) {
                        d.insert("name".into(), json!(text(t, weird)));
                    }
                    if t.chance(500) {
                        d.insert("locale".into(), json!(text(t, weird)));
                    }
                    Value::Object(d)
                })
                .collect();
            s.insert("display".into(), Value::Array(d));
        }
        let name = text(t, weird);
        m.insert(if n > 2 { format!("{name}{i}") } else { name }, Value::Object(s));
    }
    Value::Object(m)
}

fn list(t: &mut Tape, max: u32, weird: u32) -> Value {
    let n = crowd(t, 0, max);
    Value::Array((0..n).map(|i| if n > max && i % 7 != 6 { json!(format!("{}{i}", t.pick(&WORDS))) } else { json!(text(t, weird)) }).collect())
}

pub fn profile(t: &mut Tape, weird: u32) -> Value {
    let mut m = Map::new();
    let f = *t.pick(&["ldp_vc", "jwt_vc_json", "jwt_vc_json-ld", "mso_mdoc"]);
    m.insert("format".into(), json!(f));
    let sub = if f == "mso_mdoc" { "claims" } else { "credentialSubject" };
    if f == "mso_mdoc" {
        m.insert("doctype".into(), json!(format!("org.iso.{}", text(t, weird))));
    } else {
        let mut ty = vec![json!("VerifiableCredential")];
        if let Value::Array(a) = list(t, 3, weird) {
            ty.extend(a);
        }
        if t.chance(weird / 4) {
            ty.clear();
        }
        m.insert("types".into(), Value::Array(ty));
    }
    if f == "ldp_vc" {
        let c: Vec<Value> = (0..crowd(t, 0, 3))
            .map(|i| {
                if i == 0 {
                    json!("https://www.w3.org/2018/credentials/v1")
                } else if t.chance(500) {
                    let v = match t.below(5) {
                        0 | 1 => json!({"@id": text(t, weird), "n": [1, null, {"x": -0.5}]}),
                        2 => Value::Null,
                        3 => json!({}),
                        _ => json!({"@id": text(t, weird), "@container": null, "@protected": true}),
                    };
                    let k = text(t, weird);
                    match t.below(6) {
                        0 => json!({ k: v }),
                        1 => json!({}),
                        _ => json!({ k: v, "k": text(t, weird) }),
                    }
                } else {
                    json!(text(t, weird))
                }
            })
            .collect();
        m.insert("@context".into(), Value::Array(c));
    }
    if t.chance(500) {
        m.insert(sub.into(), subject(t, weird));
    }
    if t.chance(300) {
        m.insert("order".into(), list(t, 3, weird));
    }
    Value::Object(m)
}

/// how a party writes down a point in time
pub fn write_time(style: u32, at: i128) -> Value {
    let whole = at.rem_euclid(NS) == 0;
    // exact both as a binary fraction and in nanoseconds
    let exact = at.rem_euclid(NS / 512) == 0;
    match style {
        0 => json!(tm::render(at, 0)),
        1 if whole => json!((at / NS) as i64),
        2 if exact && at.abs() < 1_000_000_000_000 * NS => json!((at / (NS / 512)) as f64 / 512.0),
        3 => json!(tm::render(at, 120)),
        4 => json!(tm::render(at, -570)),
        5 => json!(tm::render(at, 0).replace('Z', "+00:00")),
        _ => json!(tm::render(at, 0)),
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ProofSpec {
    pub typ: String,
    pub alg: String,
    /// kid / jwk / x5c members of the header
    pub key: Vec<(String, Value)>,
    pub iss: Option<String>,
    pub aud: String,
    pub sub: Option<String>,
    pub iat: i128,
    pub nonce: String,
    pub nbf: Option<i128>,
    pub exp: Option<i128>,
    /// iat, nbf, exp
    pub style: [u32; 3],
    pub extra_header: Vec<(String, Value)>,
    pub extra_body: Vec<(String, Value)>,
    pub shuffle: u32,
    pub sig: Option<String>,
    /// further segments after the signature
    pub tail: Vec<String>,
    /// explicit nulls for absent optional claims
    pub nulls: bool,
    /// in place of `iat`
    pub raw_iat: Option<Value>,
    /// members left out or written as something else, at last; the first says whether in the header
    #[serde(default)]
    pub put: Vec<(bool, String, Option<Value>)>,
}

fn object(mut members: Vec<(String, Value)>, shuffle: u32) -> String {
    let mut s = splitmix(u64::from(shuffle));
    if shuffle > 0 {
        for i in (1..members.len()).rev() {
            s = splitmix(s);
            members.swap(i, (s % (i as u64 + 1)) as usize);
        }
    }
    let sep = if shuffle % 3 == 2 { ", " } else { "," };
    let body: Vec<String> = members.iter().map(|(k, v)| format!("{}:{}", Value::String(k.clone()), v)).collect();
    format!("{{{}}}", body.join(sep))
}

impl ProofSpec {
    pub fn header(&self) -> String {
        let mut h = vec![("typ".to_owned(), json!(self.typ)), ("alg".to_owned(), json!(self.alg))];
        h.extend(self.key.iter().cloned());
        h.extend(self.extra_header.iter().cloned());
        self.put_into(true, &mut h);
        object(h, self.shuffle)
    }
    pub fn body(&self) -> String {
        let mut b = vec![("aud".to_owned(), json!(self.aud)), ("nonce".to_owned(), json!(self.nonce)), ("iat".to_owned(), self.raw_iat.clone().unwrap_or_else(|| write_time(self.style[0], self.iat)))];
        let mut o = |k: &str, v: Option<Value>| match v {
            Some(v) => b.push((k.to_owned(), v)),
            None if self.nulls => b.push((k.to_owned(), Value::Null)),
            None => {}
        };
        o("iss", self.iss.as_ref().map(|s| json!(s)));
        o("sub", self.sub.as_ref().map(|s| json!(s)));
        o("nbf", self.nbf.map(|x| write_time(self.style[1], x)));
        o("exp", self.exp.map(|x| write_time(self.style[2], x)));
        b.extend(self.extra_body.iter().cloned());
        self.put_into(false, &mut b);
        object(b, self.shuffle)
    }
    fn put_into(&self, header: bool, m: &mut Vec<(String, Value)>) {
        for (h, k, v) in &self.put {
            if *h != header {
                continue;
            }
            match v {
                None => m.retain(|x| x.0 != *k),
                Some(v) => match m.iter_mut().find(|x| x.0 == *k) {
                    Some(x) => x.1 = v.clone(),
                    None => m.push((k.clone(), v.clone())),
                },
            }
        }
    }
    pub fn jwt(&self) -> String {
        let mut s = format!("{}.{}", util::b64(self.header().as_bytes()), util::b64(self.body().as_bytes()));
        for x in self.sig.iter().chain(self.tail.iter()) {
            s.push('.');
            s.push_str(x);
        }
        s
    }
    pub fn kid(&self) -> Option<&str> {
        self.key.iter().find(|k| k.0 == "kid").and_then(|k| k.1.as_str())
    }
    /// what the wallet's signature stands for
    pub fn canon(&self) -> String {
        json!([self.typ, self.alg, self.kid(), self.iss, self.aud, self.sub, self.iat.to_string(), self.nonce, self.nbf.map(|x| x.to_string()), self.exp.map(|x| x.to_string())])
            .to_string()
    }
}

/// toy signature: only wallets call this with their own key
pub fn sign(key: &[u8], canon: &str) -> String {
    let mut d = key.to_vec();
    d.push(0);
    d.extend_from_slice(canon.as_bytes());
    let a = util::hash_bytes(&d);
    d.push(1);
    let b = util::hash_bytes(&d);
    util::b64(&[a.to_be_bytes(), b.to_be_bytes(), splitmix(a ^ b).to_be_bytes()].concat())
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ReqSpec {
    pub profile: Value,
    /// None: member absent
    pub proof_type: Option<String>,
    pub proof: Option<ProofSpec>,
    pub extra: Vec<(String, Value)>,
    pub shuffle: u32,
}

impl ReqSpec {
    pub fn bytes(&self) -> Vec<u8> {
        let mut m: Vec<(String, Value)> = self.profile.as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), v.clone())).collect()).unwrap_or_default();
        if let Some(p) = &self.proof {
            let mut o = Map::new();
            if let Some(t) = &self.proof_type {
                o.insert("proof_type".into(), json!(t));
            }
            o.insert("jwt".into(), json!(p.jwt()));
            m.push(("proof".into(), Value::Object(o)));
        }
        m.extend(self.extra.iter().cloned());
        object(m, self.shuffle).into_bytes()
    }
}

// ---------------------------------------------------------------- DIDs

pub fn did(t: &mut Tape, s: usize, weird: u32) -> String {
    if !t.chance(weird) {
        return format!("did:example:wallet{s}");
    }
    match t.below(6) {
        0 => format!("did:web:wallet{s}.example.com%3A3000:u"),
        1 => format!("did:key:z6Mk{}", util::b58(&splitmix(s as u64).to_be_bytes())),
        2 => format!("did:ion:{}", util::b64(&[splitmix(s as u64 + 9).to_be_bytes(), splitmix(s as u64).to_be_bytes()].concat())),
        3 => "did:example:wallet".to_owned(),
        4 => format!("did:example:{}", "w".repeat(t.range(1, 500) as usize)),
        _ => format!("did:ex{s}:A.B-c_d"),
    }
}

pub fn key_bytes(seed: u64) -> Vec<u8> {
    (0..4).flat_map(|i| splitmix(seed.wrapping_mul(31).wrapping_add(i)).to_be_bytes()).collect()
}

/// how a verification method carries key material; the first `HONEST` are ones every reader supports
pub const HONEST: u32 = 4;
pub const ALL_FORMS: u32 = 14;

pub fn vm(form: u32, id: &str, did: &str, key: &[u8]) -> Value {
    let okp = |crv: &str, alg: Option<&str>| {
        let mut j = json!({"kty": "OKP", "crv": crv, "x": util::b64(key)});
        if let Some(a) = alg {
            j["alg"] = json!(a);
        }
        j
    };
    let (ty, k, v) = match form {
        0 => ("JsonWebKey2020", "publicKeyJwk", okp("Ed25519", None)),
        1 => ("Ed25519VerificationKey2018", "publicKeyBase58", json!(util::b58(key))),
        2 => ("Ed25519VerificationKey2020", "publicKeyMultibase", json!(format!("z{}", util::b58(&[&[0xed, 0x01], key].concat())))),
        3 => ("JsonWebKey2020", "publicKeyJwk", okp("Ed25519", Some("EdDSA"))),
        4 => ("Ed25519VerificationKey2018", "publicKeyJwk", okp("Ed25519", None)),
        5 => ("JsonWebKey2020", "publicKeyJwk", json!({"kty": "EC", "crv": "P-256", "x": util::b64(key), "y": util::b64(key)})),
        6 => ("JsonWebKey2020", "publicKeyJwk", json!({"kty": "EC", "crv": "secp256k1", "x": util::b64(key), "y": util::b64(key), "alg": "ES256K"})),
        7 => ("EcdsaSecp256k1VerificationKey2019", "publicKeyBase58", json!(util::b58(key))),
        8 => ("JsonWebKey2020", "publicKeyJwk", json!({"kty": "oct", "k": util::b64(key)})),
        9 => ("JsonWebKey2020", "publicKeyJwk", json!({"kty": "RSA", "n": util::b64(key), "e": "AQAB"})),
        10 => ("X25519KeyAgreementKey2019", "publicKeyJwk", okp("X25519", None)),
        11 => ("Ed25519VerificationKey2020", "publicKeyMultibase", json!(format!("z{}", util::b58(&[&[0xec, 0x01], key].concat())))),
        12 => ("Ed25519VerificationKey2018", "publicKeyBase58", json!("not base58 0OIl")),
        _ => ("EcdsaSecp256k1RecoveryMethod2020", "blockchainAccountId", json!("eip155:1:0x89a932207c485f85226d86f7cd486a89a24fcc12")),
    };
    json!({"id": id, "type": ty, "controller": did, k: v})
}

/// a public key as a sender may enclose it
pub fn some_jwk(t: &mut Tape) -> Value {
    let key: Vec<u8> = (0..32).map(|i| splitmix(u64::from(t.below(4)) << 8 | i) as u8).collect();
    let f = *t.pick(&[0u32, 0, 3, 5, 6, 8, 9, 10]);
    let mut j = vm(f, "", "", &key)["publicKeyJwk"].clone();
    if f == 5 && t.chance(500) {
        j["alg"] = json!("ES256");
    }
    j
}
