// included at the end of src/polodb_core/vm/query_matcher.rs under --cfg polodb_verif
#[cfg(kani)]
mod verif_kani {
    use super::*;

    /// The meaning of a double as an exact integer, if it is one that an i64 can hold; taken apart by its bits.
    fn exact_integer(d: f64) -> Option<i128> {
        let bits = d.to_bits();
        let neg = (bits >> 63) != 0;
        let exp = ((bits >> 52) & 0x7ff) as i32;
        let frac = bits & ((1u64 << 52) - 1);
        if exp == 0x7ff {
            return None;
        }
        let man: i128 = if exp == 0 { frac as i128 } else { (frac | (1u64 << 52)) as i128 };
        let e: i32 = if exp == 0 { -1074 } else { exp - 1075 };
        if man == 0 {
            return Some(0);
        }
        if e >= 12 {
            return None; // beyond every i64
        }
        let v = if e >= 0 {
            man << e
        } else {
            let s = (-e) as u32;
            if s >= 64 || man & ((1i128 << s) - 1) != 0 {
                return None; // not an integer
            }
            man >> s
        };
        Some(if neg { -v } else { v })
    }

    #[kani::proof]
    fn c05_integer_equals_double_is_exact() {
        let i: i64 = kani::any();
        let d: f64 = kani::any();
        assert!(integer_equals_double(i, d) == (exact_integer(d) == Some(i as i128)));
        kani::cover!(exact_integer(d) == Some(i as i128) && i > (1 << 60));
    }
}
