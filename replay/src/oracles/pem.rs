//! C22: certificates and private keys in files.
use crate::gen::Gen;
use crate::{Done, Oracle};
use std::fs;
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
#[cfg(wruster_verif)]
use wruster::verif::tls::private_key_bytes;
use wruster::{Certificate, PrivateKey};

static COUNT: AtomicUsize = AtomicUsize::new(0);

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let n = COUNT.fetch_add(1, Ordering::SeqCst);
        let dir = std::env::temp_dir().join(format!("vpem-{}-{}", std::process::id(), n));
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(&dir).unwrap();
        Scratch(dir)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn base64(d: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(T[(n >> (18 - 6 * i) & 63) as usize] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}

const KINDS: [(&str, usize); 9] = [
    ("CERTIFICATE", 0), ("RSA PRIVATE KEY", 1), ("PRIVATE KEY", 1), ("EC PRIVATE KEY", 1), ("X509 CRL", 2),
    // Those are skipped.
    ("EC PARAMETERS", 3), ("ENCRYPTED PRIVATE KEY", 3), ("PUBLIC KEY", 3), ("TRUSTED CERTIFICATE", 3),
];

fn pem(g: &mut Gen) -> Done {
    let dir = Scratch::new();
    let nl = *g.pick(&["\n", "\n", "\r\n", "\r"]);
    let mut text: Vec<u8> = vec![];
    // The sections that count, and whether a malformed one follows.
    let mut secs: Vec<(usize, Vec<u8>)> = vec![];
    let mut bad = false;
    let what = g.range(0, 9);
    let mut path = dir.0.join(*g.pick(&["a.pem", "b c.pem", "ñ", ".x"])).to_str().unwrap().to_string();
    let mut says = String::new();
    if what == 0 {
        path = match g.range(0, 5) {
            0 => dir.0.join("missing.pem").to_str().unwrap().into(),
            1 => dir.0.to_str().unwrap().into(),
            2 => String::new(),
            3 => dir.0.join("a\0b").to_str().unwrap().into(),
            4 => dir.0.join("x".repeat(5000)).to_str().unwrap().into(),
            _ => {
                let l = dir.0.join("link");
                std::os::unix::fs::symlink(dir.0.join("nowhere"), &l).unwrap();
                l.to_str().unwrap().into()
            }
        };
        says = format!("path {:?}", &path[path.len().saturating_sub(30)..]);
    } else {
        for _ in 0..g.range(0, 4) {
            if g.chance(25) {
                let t = *g.pick(&["subject=/CN=localhost", "", "-----", "MIIB", "----- BEGIN", "\u{feff}# note"]);
                text.extend(format!("{}{}", t, nl).bytes());
                says += &format!(" text({:?})", t);
            }
            let (name, kind) = if g.chance(75) { KINDS[g.range(0, 3)] } else { *g.pick(&KINDS) };
            let n = match g.range(0, 3) {
                0 => g.range(1, 8),
                1 => g.range(1, 200),
                2 => g.range(200, 2000),
                _ => g.range(5000, 20000),
            };
            let data = g.bytes(n);
            let mut b = base64(&data);
            let fail = g.chance(10);
            let mut end = format!("-----END {}-----", name);
            let mut begin = format!("-----BEGIN {}-----", name);
            let mut how = "";
            if fail {
                how = match g.range(0, 4) {
                    0 => {
                        let at = g.below(b.len());
                        b.replace_range(at..at + 1, "*");
                        "not base64"
                    }
                    1 => {
                        end = String::new();
                        "no end"
                    }
                    2 => {
                        begin = format!("-----BEGIN {}---", name);
                        "bad start"
                    }
                    3 => {
                        b = b.replace('=', "");
                        b.truncate(b.len() / 4 * 4);
                        b.push('A');
                        "truncated base64"
                    }
                    _ => {
                        end = "-----END SOMETHING-----".into();
                        "another end"
                    }
                };
            }
            let width = *g.pick(&[64usize, 76, 1000000]);
            text.extend(format!("{}{}", begin, nl).bytes());
            for l in b.as_bytes().chunks(width) {
                text.extend(l);
                text.extend(nl.bytes());
            }
            text.extend(end.bytes());
            if how == "no end" {
                bad = true;
                says += &format!(" {}({}, {})", name, n, how);
                // The end of the file.
                break;
            }
            text.extend(nl.bytes());
            says += &format!(" {}({}{}{})", name, n, if how.is_empty() { "" } else { ", " }, how);
            if fail {
                bad = true;
                break;
            }
            if kind < 3 {
                secs.push((kind, data));
            }
        }
        if !bad && g.chance(30) {
            // The last line without its end.
            while text.ends_with(nl.as_bytes()) {
                text.truncate(text.len() - nl.len());
            }
        }
        fs::write(&path, &text).unwrap();
    }
    g.note(says.clone());
    let readable = what != 0;
    let want_cert: Option<&Vec<u8>> = if !readable || bad { None } else { secs.iter().find(|s| s.0 == 0).map(|s| &s.1) };
    let want_key: Option<&Vec<u8>> = secs.first().filter(|s| s.0 == 1).map(|s| &s.1);
    let say = |what: &str, got: Option<usize>, want: Option<usize>| {
        let t = |x: Option<usize>| x.map_or("an error".to_string(), |n| format!("{} bytes", n));
        format!("reading the {} gives {}{}, and {} was expected", what, t(got), if got.is_some() && got == want { " (others)" } else { "" }, t(want))
    };
    let cert = Certificate::read_from(&path).ok();
    let got: Option<Vec<u8>> = cert.as_ref().map(|c| Vec::<u8>::from(&c.clone()));
    if got.as_ref() != want_cert {
        return g.done(true, Some(format!("{}: {}", says, say("certificate", got.map(|x| x.len()), want_cert.map(|x| x.len())))));
    }
    let key = PrivateKey::read_from(&path).ok();
    #[cfg(wruster_verif)]
    let got: Option<Vec<u8>> = key.as_ref().map(|k| private_key_bytes(&k.clone()).to_vec());
    // Without the hook the bytes of a key can not be seen.
    #[cfg(not(wruster_verif))]
    let got: Option<Vec<u8>> = key.as_ref().map(|_| want_key.cloned().unwrap_or_default());
    if got.as_ref() != want_key {
        return g.done(true, Some(format!("{}: {}", says, say("private key", got.map(|x| x.len()), want_key.map(|x| x.len())))));
    }
    g.done(want_cert.is_some() || want_key.is_some(), None)
}

pub fn oracles() -> Vec<Oracle> {
    vec![Oracle {
        prop: "C22",
        name: "pem_files",
        rule: "files made of up to four sections (certificates, keys of the three kinds, revocation lists, unknown ones) with text between them, of any size and line width, some malformed (not base64, truncated, without end or start), and paths that can not be read; what is read must be the first certificate, the key that is the first section, byte for byte, or an error",
        weight: 1,
        max: 0,
        limit_ms: 10000,
        run: pem,
    }]
}
