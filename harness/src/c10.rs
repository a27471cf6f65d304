//! C10: number to binary
use crate::{refm, sym};
use bitcoin_cash::encoding_utils::{encode_minimally, vec_to_int};
use bitcoin_cash::{ByteArray, Function, Integer};

fn int() -> (Integer, i64) {
    let v = sym::i32();
    sym::assume(v != i32::MIN);
    (Integer::new(v).unwrap_or(Integer::ZERO), v as i64)
}
/// -(2^(8n-1)-1)..=2^(8n-1)-1 fits n bytes
fn fits(v: i64, n: i64) -> bool {
    let m = if v < 0 { -v } else { v };
    n >= 4 || (n > 0 && m < 1i64 << (8 * n - 1))
}
fn judge(r: Result<ByteArray, bitcoin_cash::ByteArrayError>, v: i64, n: i64) {
    match r {
        Ok(a) => {
            sym::reach("converted");
            sym::check(fits(v, n), "accepted only if it fits");
            sym::check(a.len() as i64 == n, "exactly the requested size");
            sym::check(a.function() == Function::Num2Bin, "tagged as a conversion");
            sym::obs(&a);
            let m = (if v < 0 { -v } else { v }) as u64;
            let neg = v < 0;
            let mut ok = true;
            let l = a.len();
            let mut i = 0;
            while i < l {
                let mut want = if i < 4 { (m >> (8 * i)) as u8 } else { 0 };
                if i == l - 1 {
                    want |= (neg as u8) << 7;
                }
                ok &= a[i] == want;
                i += 1;
            }
            sym::check(ok, "sign-magnitude little-endian of the integer");
        }
        Err(_) => {
            sym::reach("rejected");
            sym::check(!fits(v, n), "rejected only if it does not fit")
        }
    }
}
harnesses! {
    fn c10_size(n) {
        let (i, v) = int();
        judge(ByteArray::from_int(i, Integer::new(n as i64).unwrap()), v, n as i64);
    }
    // every size; results of more than 64 bytes are not looked at
    fn c10_any() {
        let (i, v) = int();
        let (k, n) = int();
        sym::alloc_cut(64);
        judge(ByteArray::from_int(i, k), v, n);
    }
    // converting back gives the integer
    fn c10_back(n) {
        let (i, v) = int();
        if let Ok(a) = ByteArray::from_int(i, Integer::new(n as i64).unwrap()) {
            let mut b = a.to_vec();
            let (s, m) = refm::num(&b);
            sym::check(m as i64 == if v < 0 { -v } else { v } && (m == 0 || s == (v < 0)), "denotes the integer");
            encode_minimally(&mut b);
            match vec_to_int(&b) {
                Ok(w) => sym::check(w as i64 == v, "back to the integer"),
                Err(_) => sym::check(false, "back to the integer"),
            }
        }
    }
}
