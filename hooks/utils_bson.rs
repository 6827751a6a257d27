// included at the end of src/polodb_core/utils/bson.rs under --cfg polodb_verif
#[cfg(kani)]
mod verif_kani {
    use super::*;
    use std::mem::ManuallyDrop;

    /// Independent meaning of an integer against a double: the double is taken apart into
    /// sign, mantissa and exponent and both sides are compared as exact integers / fractions.
    fn exact_cmp(i: i64, d: f64) -> Ordering {
        let bits = d.to_bits();
        let neg = (bits >> 63) != 0;
        let exp = ((bits >> 52) & 0x7ff) as i32;
        let frac = bits & ((1u64 << 52) - 1);
        if exp == 0x7ff {
            // infinities are beyond every integer, NaN is below every number
            return if frac != 0 || neg { Ordering::Greater } else { Ordering::Less };
        }
        // |d| = man * 2^e
        let man: i128 = if exp == 0 { frac as i128 } else { (frac | (1u64 << 52)) as i128 };
        let e: i32 = if exp == 0 { -1074 } else { exp - 1075 };
        let i = i as i128;
        if e >= 12 && man != 0 {
            // |d| >= 2^52 * 2^12 > every i64
            return if neg { Ordering::Greater } else { Ordering::Less };
        }
        if e >= 0 {
            let v = man << e;
            return i.cmp(&if neg { -v } else { v });
        }
        // d = q + rest with q = floor(|d|)
        let s = (-e) as u32;
        let (q, rest) = if s >= 64 { (0, man != 0) } else { (man >> s, man & ((1i128 << s) - 1) != 0) };
        if neg {
            // d in (-q-1, -q] with equality only when rest is zero
            if i > -q || (i == -q && rest) { Ordering::Greater } else if i == -q { Ordering::Equal } else { Ordering::Less }
        } else if i < q || (i == q && rest) {
            Ordering::Less
        } else if i == q {
            Ordering::Equal
        } else {
            Ordering::Greater
        }
    }

    #[kani::proof]
    fn c03_integer_double_cmp_is_exact() {
        let i: i64 = kani::any();
        let d: f64 = kani::any();
        assert!(integer_double_cmp(i, d) == exact_cmp(i, d));
    }

    /// numbers: double_cmp is a total order with NaN least and equal to itself, 0.0 == -0.0
    #[kani::proof]
    fn c03_double_cmp_is_total() {
        let a: f64 = kani::any();
        let b: f64 = kani::any();
        let c: f64 = kani::any();
        assert!(double_cmp(a, a) == Ordering::Equal);
        assert!(double_cmp(a, b) == double_cmp(b, a).reverse());
        if double_cmp(a, b) != Ordering::Greater && double_cmp(b, c) != Ordering::Greater {
            assert!(double_cmp(a, c) != Ordering::Greater);
        }
        if a < b {
            assert!(double_cmp(a, b) == Ordering::Less);
        }
        if a == b {
            assert!(double_cmp(a, b) == Ordering::Equal);
        }
        if a.is_nan() && !b.is_nan() {
            assert!(double_cmp(a, b) == Ordering::Less);
        }
        kani::cover!(a.is_nan() && !b.is_nan() && c.is_infinite());
    }
}
