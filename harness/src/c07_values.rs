//! Laws of field value comparison (C07) and removal of several elements (C23).
use crate::c06_filter::{any_value, bytes_order, long_pair, some_value};
use crate::sx;
use chopper::chopper::types::FieldValue;
use chopper::util::remove_multiple::RemoveMultiple;
use std::cmp::Ordering;

const ALL: usize = 9; // kinds 0..8 are comparable

/// equal by content, for values of the same kind
fn equal(a: &FieldValue, b: &FieldValue) -> bool {
    match (a, b) {
        (FieldValue::Byte(x), FieldValue::Byte(y)) => x == y,
        (FieldValue::Char(x), FieldValue::Char(y)) => x == y,
        (FieldValue::Int(x), FieldValue::Int(y)) => x == y,
        (FieldValue::Long(x), FieldValue::Long(y)) => x == y,
        (FieldValue::Short(x), FieldValue::Short(y)) => x == y,
        (FieldValue::Double(x), FieldValue::Double(y)) => x == y,
        (FieldValue::Float(x), FieldValue::Float(y)) => x == y,
        (FieldValue::String(x), FieldValue::String(y)) => sx::eq_bytes(x.as_bytes(), y.as_bytes()),
        (FieldValue::None, FieldValue::None) => true,
        _ => false,
    }
}
fn lt(a: &FieldValue, b: &FieldValue) -> bool {
    match (a, b) {
        (FieldValue::Byte(x), FieldValue::Byte(y)) => x < y,
        (FieldValue::Char(x), FieldValue::Char(y)) => x < y,
        (FieldValue::Int(x), FieldValue::Int(y)) => x < y,
        (FieldValue::Long(x), FieldValue::Long(y)) => x < y,
        (FieldValue::Short(x), FieldValue::Short(y)) => x < y,
        (FieldValue::Double(x), FieldValue::Double(y)) => x < y,
        (FieldValue::Float(x), FieldValue::Float(y)) => x < y,
        (FieldValue::String(x), FieldValue::String(y)) => bytes_order(x.as_bytes(), y.as_bytes()) == -1,
        _ => false,
    }
}

harness! {
    h_value_long {
        let (x, y) = long_pair();
        let o = bytes_order(x.as_bytes(), y.as_bytes());
        let (a, b) = (FieldValue::String(x), FieldValue::String(y));
        sx::check((a == b) == (o == 0), "equality of values does not agree with their contents");
        let (lt, gt) = (a.partial_cmp(&b) == Some(Ordering::Less), a.partial_cmp(&b) == Some(Ordering::Greater));
        sx::check(lt == (o == -1) && gt == (o == 1), "the order of values is not the natural one");
        if lt { sx::cover("less"); }
    }
    h_remove_many {
        // several of the first, middle and last elements of a long list, or all others
        let n = [12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 129, 257][sx::choose("n", 0, 12)];
        let places = [0, 1, 2, n / 2 - 1, n / 2, n - 3, n - 2, n - 1];
        let inverse = sx::flag("inverse", 0);
        let mut gone = vec![inverse; n];
        for (i, p) in places.iter().enumerate() { if sx::flag("gone", i) { gone[*p] = !inverse; } }
        let idx: Vec<usize> = (0..n).filter(|i| gone[*i]).collect();
        let mut w: Vec<u32> = (0..n as u32).collect();
        w[0] = sx::u32v("v", 0);
        let left: Vec<u32> = (0..n).filter(|i| !gone[*i]).map(|i| w[i]).collect();
        w.remove_multiple(&idx);
        sx::check(w.len() == left.len() && w.iter().zip(&left).all(|(a, b)| a == b), "wrong elements left, or in another order");
        sx::cover("many");
    }
    h_remove_huge {
        // single places, or every so many, of a very long list
        let n = [1023, 1024, 1025, 4100, 66000][sx::choose("n", 0, 5)];
        let every = [n, n / 2 + 1, n / 40, n / 70, n / 300 + 1][sx::choose("every", 0, 5)];
        let from = [0, 1, every - 1, n - 1][sx::choose("from", 0, 4)];
        let idx: Vec<usize> = (from..n).step_by(every).collect();
        let mut w: Vec<u32> = (0..n as u32).collect();
        let at = [0, n / 2, n - 1][sx::choose("at", 0, 3)];
        w[at] = sx::u32v("v", 0);
        let left: Vec<u32> = w.iter().enumerate().filter(|(i, _)| *i < from || (*i - from) % every != 0).map(|(_, v)| *v).collect();
        w.remove_multiple(&idx);
        sx::check(w.len() == left.len() && w.iter().zip(&left).all(|(a, b)| a == b), "wrong elements left, or in another order");
        sx::cover("huge");
    }
    h_value_eq {
        let k = sx::choose("k", 0, ALL);
        let l = sx::choose("k", 1, ALL);
        let a = any_value(k, "a", 0);
        let b = any_value(l, "b", 0);
        let e = a == b;
        sx::check(e == equal(&a, &b), "equality of values does not agree with their contents");
        sx::check(e == (b == a), "equality is not symmetric");
        sx::check((a != b) == !e, "inequality is not the opposite of equality");
        if e { sx::cover("equal"); } else { sx::cover("different"); }
        sx::observe("eq", e as u64);
    }
    h_value_order {
        let k = sx::choose("k", 0, ALL);
        let a = any_value(k, "a", 0);
        let b = any_value(k, "b", 0);
        let o = a.partial_cmp(&b);
        match o {
            Some(Ordering::Less) => { sx::check(lt(&a, &b), "less, but not in the natural order"); sx::cover("less"); }
            Some(Ordering::Greater) => { sx::check(lt(&b, &a), "greater, but not in the natural order"); sx::cover("greater"); }
            Some(Ordering::Equal) => { sx::check(equal(&a, &b), "equal in order, but different values"); sx::check(a == b, "equal in order, but not equal"); }
            None => {
                sx::check(matches!(a, FieldValue::Double(x) if x.is_nan()) || matches!(b, FieldValue::Double(x) if x.is_nan())
                    || matches!(a, FieldValue::Float(x) if x.is_nan()) || matches!(b, FieldValue::Float(x) if x.is_nan()), "values without an order");
                sx::cover("unordered");
            }
        }
        sx::check(b.partial_cmp(&a) == o.map(|x| x.reverse()), "order is not antisymmetric");
    }
    h_value_missing {
        // a missing value has no order with a value and never equals one
        let k = 1 + sx::choose("k", 0, ALL - 1);
        let a = any_value(k, "a", 0);
        let n = FieldValue::None;
        sx::check(a.partial_cmp(&n).is_none() && n.partial_cmp(&a).is_none(), "a missing value has an order with a value");
        sx::check(!(a == n) && !(n == a) && !(a > n) && !(a < n), "a missing value compares with a value");
    }
    h_value_kinds {
        // different kinds are never equal, and asking for their order is an error
        let k = sx::choose("k", 0, 11);
        let l = sx::choose("k", 1, 11);
        sx::assume(k != l);
        let a = any_value(k, "a", 0);
        let b = any_value(l, "b", 0);
        sx::check(!(a == b), "values of different kinds are equal");
        sx::allow(sx::EXIT);
        let o = some_value(k).partial_cmp(&some_value(l));
        sx::check(o.is_none(), "values of different kinds have an order");
    }
    h_value_transitive {
        let k = sx::choose("k", 0, ALL);
        let a = any_value(k, "a", 0);
        let b = any_value(k, "b", 0);
        let c = any_value(k, "c", 0);
        if a == b && b == c {
            sx::check(a == c, "equality is not transitive");
            sx::cover("three equal");
        }
        if a < b && b < c {
            sx::check(a < c, "order is not transitive");
            sx::cover("three ordered");
        }
    }
    h_remove {
        // positions and contents: any sorted set of positions of a list of up to 6
        let n = sx::choose("n", 0, 7);
        let v: Vec<u32> = (0..n).map(|i| sx::u32v("v", i)).collect();
        let gone: Vec<bool> = (0..n).map(|i| sx::flag("gone", i)).collect();
        let idx: Vec<usize> = (0..n).filter(|i| gone[*i]).collect();
        let mut w = v.clone();
        w.remove_multiple(&idx);
        let left: Vec<u32> = (0..n).filter(|i| !gone[*i]).map(|i| v[i]).collect();
        sx::check(w.len() == left.len(), "wrong number of elements left");
        for (a, b) in w.iter().zip(&left) {
            sx::check(a == b, "wrong elements left, or in another order");
        }
        if left.len() >= 2 && idx.len() >= 2 { sx::cover("several"); }
        sx::observe("left", w.len() as u64);
    }
    h_remove_pos {
        // positions as symbolic numbers
        let n = 6;
        let k = sx::choose("k", 0, 4);
        let mut idx = Vec::new();
        for i in 0..k {
            let p = sx::u64v("p", i) as usize;
            sx::assume(p < n);
            if i > 0 { sx::assume(p > idx[i - 1]); }
            idx.push(p);
        }
        let mut w: Vec<String> = (0..n).map(|i| format!("e{}", i)).collect();
        w.remove_multiple(&idx);
        sx::check(w.len() == n - k, "wrong number of elements left");
        let left: Vec<usize> = (0..n).filter(|i| !idx.contains(i)).collect();
        for (a, b) in w.iter().zip(&left) {
            sx::check(*a == format!("e{}", b), "wrong elements left, or in another order");
        }
    }
    h_remove_long {
        let n = 11;
        let gone: Vec<bool> = (0..n).map(|i| sx::flag("gone", i)).collect();
        let idx: Vec<usize> = (0..n).filter(|i| gone[*i]).collect();
        let mut w: Vec<usize> = (0..n).collect();
        w.remove_multiple(&idx);
        let left: Vec<usize> = (0..n).filter(|i| !gone[*i]).collect();
        sx::check(w == left, "wrong elements left, or in another order");
    }
}
