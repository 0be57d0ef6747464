//! Lengths that are too large to execute byte by byte: the length stays symbolic.
#![cfg(kani)]
use yason::*;

fn big(n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::with_capacity(n);
    // the content is nondeterministic; nothing here inspects it
    unsafe { v.set_len(n) };
    v
}

/// every string that the length prefix can hold is stored and read back
#[kani::proof]
#[kani::unwind(10)]
fn string_fits() {
    let len: usize = kani::any();
    kani::assume(len <= 268435455);
    let v = big(len);
    let s = unsafe { std::str::from_utf8_unchecked(&v) };
    let y = Scalar::string(s).unwrap();
    let r = y.string().unwrap();
    assert!(r.len() == len);
    let i: usize = kani::any();
    kani::assume(i < len);
    assert!(r.as_bytes()[i] == v[i]);
    kani::cover!(len > 2097152);
    kani::cover!(len < 128);
}

/// every longer string is refused
#[kani::proof]
#[kani::unwind(10)]
fn string_too_long() {
    let len: usize = kani::any();
    kani::assume(len > 268435455 && len <= 1 << 30);
    let v = big(len);
    let s = unsafe { std::str::from_utf8_unchecked(&v) };
    assert!(matches!(Scalar::string(s), Err(BuildError::StringTooLong(n)) if n == len));
    kani::cover!(len > 1 << 29);
}
