//! Contract of template expansion (appended to template.rs).
use super::*;

const REPL: [&[u8]; 3] = [b"", b"%", b"xy"];

/// templates of at most `L` bytes, any escape byte, two expansions of any bytes
fn expand<const L: usize>() {
    let t: [u8; L] = kani::any();
    let l: usize = kani::any();
    kani::assume(l <= L);
    let esc: u8 = kani::any();
    let (k1, k2): (u8, u8) = (kani::any(), kani::any());
    kani::assume(k1 != k2);
    let (r1, r2): (usize, usize) = (kani::any(), kani::any());
    kani::assume(r1 < 3 && r2 < 3);
    let s = Spec { escape: esc, expansions: HashMap::verif_of([(k1, REPL[r1].into()), (k2, REPL[r2].into())]) };
    let r = s.expand(&t[..l]);
    // any one byte of the expected text
    let probe: usize = kani::any();
    let (mut n, mut want) = (0, 0u8);
    let mut put = |b: &[u8]| {
        let mut j = 0;
        while j < b.len() {
            if n == probe { want = b[j]; }
            n += 1;
            j += 1;
        }
    };
    let mut i = 0;
    while i < l {
        if t[i] != esc {
            put(&[t[i]]);
        } else {
            i += 1;
            if i < l {
                let b = t[i];
                if b == k2 { put(REPL[r2]) } else if b == k1 { put(REPL[r1]) } else { put(&[b]) }
            }
        }
        i += 1;
    }
    kani::assert(r.len() == n && (probe >= n || r[probe] == want), "C13: each known escape is replaced, any other is its byte, everything else stays");
    kani::cover!(l == L && n == L && r1 == 2, "two expansions");
    kani::cover!(l == L && n == 0, "an empty text");
}

#[kani::proof]
#[kani::unwind(6)]
fn template_expand3() { expand::<3>() }

#[kani::proof]
#[kani::unwind(7)]
fn template_expand4() { expand::<4>() }

#[kani::proof]
#[kani::unwind(8)]
fn template_expand5() { expand::<5>() }

/// the last value given for a byte is its expansion, and `%` is the escape byte
#[kani::proof]
#[kani::unwind(8)]
fn template_replace() {
    let (k1, k2, k): (u8, u8, u8) = (kani::any(), kani::any(), kani::any());
    let esc: bool = kani::any();
    let mut s = if esc { Spec::with_escape(b'#') } else { Spec::new() };
    s.replace(k1, &b"a"[..]);
    s.replace(k2, &b"bc"[..]);
    kani::assert(s.escape == if esc { b'#' } else { b'%' }, "C13: the escape byte is the one asked for, or a percent sign");
    let e: Option<&[u8]> = match s.expansions.get(&k) { Some(v) => Some(v.as_slice()), None => None };
    let w: Option<&[u8]> = if k == k2 { Some(b"bc") } else if k == k1 { Some(b"a") } else { None };
    kani::assert(match (e, w) { (Some(a), Some(b)) => a.len() == b.len() && a[0] == b[0], (None, None) => true, _ => false }, "C13: a byte's expansion is the last one given for it");
    kani::cover!(k1 == k2, "replaced twice");
}
