//! C02: fixed-width fields
use crate::sym;
use bitcoin_cash::*;

fn check_bytes<T: BitcoinCode>(bytes: &[u8], v: &T, extra: &[u8], same: impl Fn(&T, &T) -> bool) {
    let out = v.ser();
    sym::obs(out.as_slice());
    sym::check(out.len() == bytes.len(), "encodes to exactly its width");
    sym::check(out.as_slice() == bytes, "encodes its bytes in wire order");
    let mut data = bytes.to_vec();
    data.extend_from_slice(extra);
    match T::deser_rest(data.clone().into()) {
        Ok((w, rest)) => {
            sym::check(same(&w, v), "decodes to the same value");
            sym::check(rest.as_slice() == extra, "leftover is exactly the remaining bytes");
        }
        Err(_) => sym::check(false, "enough bytes decode"),
    }
    match T::deser(data.into()) {
        Ok(w) => {
            sym::reach("strict decode");
            sym::check(extra.is_empty(), "strict decode rejects leftover bytes");
            sym::check(same(&w, v), "strict decode gives the same value");
        }
        Err(_) => {
            sym::reach("strict error");
            sym::check(!extra.is_empty(), "strict decode accepts exact bytes")
        }
    }
}
fn check_short<T: BitcoinCode>(n: u64, width: usize) {
    let data = sym::vec(n);
    sym::assume((n as usize) < width);
    sym::reach("short");
    sym::check(T::deser_rest(data.clone().into()).is_err(), "too few bytes are an error");
    sym::check(T::deser(data.into()).is_err(), "too few bytes are an error (strict)");
}
macro_rules! int {
    ($t:ident, $e:expr) => {{
        let b = sym::arr::<{ std::mem::size_of::<$t>() }>();
        let v = $t::from_le_bytes(b);
        check_bytes(&b, &v, $e, |x, y| x == y)
    }};
}
macro_rules! hash {
    ($t:ident, $n:literal, $e:expr) => {{
        let b = sym::arr::<$n>();
        let v = $t::new(b);
        sym::check(v.as_slice() == &b[..], "hash stores the bytes given");
        check_bytes(&b, &v, $e, |x, y| x.as_slice() == y.as_slice() && x == y)
    }};
}
harnesses! {
    fn c02_fixed(kind, extra) {
        let e = sym::vec(extra);
        match kind {
            0 => int!(u8, &e), 1 => int!(i8, &e), 2 => int!(u16, &e), 3 => int!(i16, &e),
            4 => int!(u32, &e), 5 => int!(i32, &e), 6 => int!(u64, &e), 7 => int!(i64, &e),
            8 => int!(u128, &e), 9 => int!(i128, &e),
            10 => hash!(Sha1, 20, &e), 11 => hash!(Ripemd160, 20, &e), 12 => hash!(Hash160, 20, &e),
            13 => hash!(Sha256, 32, &e), 14 => hash!(Sha256d, 32, &e),
            15 => {
                let b = sym::arr::<20>();
                let v = FixedByteArrayBE::<[u8; 20]>::new("x", b);
                check_bytes(&b, &v, &e, |x, y| x.as_byte_array() == y.as_byte_array())
            }
            16 => {
                let b = sym::arr::<32>();
                let v = FixedByteArrayLE::<[u8; 32]>::new_unnamed(b);
                check_bytes(&b, &v, &e, |x, y| x.as_byte_array() == y.as_byte_array())
            }
            _ => {
                let v = sym::boolean();
                let b = [sym::ite(v, 1, 0) as u8];
                check_bytes(&b, &v, &e, |x, y| x == y)
            }
        }
    }
    fn c02_short(kind, n) {
        match kind {
            0 => check_short::<u8>(n, 1), 1 => check_short::<i8>(n, 1), 2 => check_short::<u16>(n, 2), 3 => check_short::<i16>(n, 2),
            4 => check_short::<u32>(n, 4), 5 => check_short::<i32>(n, 4), 6 => check_short::<u64>(n, 8), 7 => check_short::<i64>(n, 8),
            8 => check_short::<u128>(n, 16), 9 => check_short::<i128>(n, 16),
            10 => check_short::<Sha1>(n, 20), 11 => check_short::<Ripemd160>(n, 20), 12 => check_short::<Hash160>(n, 20),
            13 => check_short::<Sha256>(n, 32), 14 => check_short::<Sha256d>(n, 32),
            15 => check_short::<FixedByteArrayBE<[u8; 20]>>(n, 20),
            16 => check_short::<FixedByteArrayLE<[u8; 32]>>(n, 32),
            _ => check_short::<bool>(n, 1),
        }
    }
    // a boolean is true for every non-zero byte
    fn c02_bool_any() {
        let b = sym::u8();
        match bool::deser(vec![b].into()) {
            Ok(v) => sym::check(v == (b != 0), "non-zero is true"),
            Err(_) => sym::check(false, "one byte decodes"),
        }
    }
}
