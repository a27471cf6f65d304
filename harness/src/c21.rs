//! C21: relative lock times as BIP68 sequence numbers
use crate::sym;
use bitcoin_cash::*;

harnesses! {
    fn c21_any() {
        let n = sym::u16();
        let blocks = sym::boolean();
        let s = if blocks { CsvTimedelta::Blockheight(n) } else { CsvTimedelta::Seconds512(n) }.sequence();
        sym::obs64(s as u64);
        sym::check(s & 0x8000_0000 == 0, "the lock is not disabled");
        sym::check((s & 0x0040_0000 != 0) == !blocks, "the type flag tells time from blocks");
        sym::check(s & 0xffff == n as u32, "the count is in the low 16 bits");
        sym::check(s & !0x0040_ffff == 0, "no other bit is set");
        sym::check(CSV_TYPE_FLAG == 0x0040_0000, "BIP68 type flag");
        if blocks { sym::reach("blocks") } else { sym::reach("time") }
    }
}
