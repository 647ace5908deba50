//! Merging, input-to-chain pairing, time range (C01, C02, C03).
use crate::kit::*;
use crate::sx;
use chopper::chopper::header_graph::{HeaderChain, HeaderNode};
use chopper::chopper::chopper::Source;
use chopper::chopper::types::{FieldType, Header, Row, TimestampRange, TIMESTAMP_RANGE_ALL};
use chopper::driver::merge_join::MergeJoin;

/// the graph the command line tool builds: n inputs merged into one sink
fn merged(n: usize, log: &Log) -> Vec<HeaderChain> {
    let mut chains = Vec::new();
    if n == 1 {
        chains.push(chain(vec![Rec::node(0, log)]));
        return chains;
    }
    for _ in 0..n {
        chains.push(chain(vec![HeaderNode::Merge(n)]));
    }
    let m = MergeJoin::new(n).ok().unwrap();
    let t = m.get_new_header_count_tracker();
    chains.push(chain(vec![HeaderNode::MergeHeaderSink(m, t), Rec::node(0, log)]));
    chains
}

/// merge `counts[i]` rows from source i, all ranges, check everything about the one output
fn merge(counts: &[usize], ranged: bool) {
    sx::allow(sx::FORK);
    let range = if ranged { any_range() } else { TIMESTAMP_RANGE_ALL };
    merge_rows(counts.iter().enumerate().map(|(i, n)| sorted_rows(i, *n)).collect(), range);
}
fn merge_rows(inputs: Vec<(Vec<u64>, Vec<Row>)>, range: TimestampRange) {
    let log = new_log();
    let counts: Vec<usize> = inputs.iter().map(|i| i.0.len()).collect();
    let mut all = Vec::new();
    let mut sources = Vec::new();
    for (ts, rows) in inputs {
        all.push(ts);
        sources.push(boxed_source(rows));
    }
    let r = run(sources, merged(counts.len(), &log), range);
    sx::check(r.is_ok(), "merging valid inputs failed");
    let out = rows_at(&log, 0);
    let mut next = vec![0usize; counts.len()];
    let mut seen: Vec<Vec<usize>> = counts.iter().map(|n| vec![0; *n]).collect();
    for (i, r) in out.iter().enumerate() {
        if i > 0 {
            sx::check(out[i - 1].timestamp <= r.timestamp, "output not in time order");
        }
        let (s, k) = label(r);
        sx::check(r.field_values.len() == 2, "a row's fields changed on the way");
        sx::check(r.timestamp == all[s][k], "a row's timestamp changed on the way");
        sx::check(k >= next[s], "rows of one input reordered");
        next[s] = k;
        seen[s][k] += 1;
        sx::observe("row", (s * 16 + k) as u64);
    }
    for s in 0..counts.len() {
        for k in 0..counts[s] {
            let want = in_range(all[s][k], &range);
            match seen[s][k] {
                0 => sx::check(!want, "a row inside the time range was dropped"),
                1 => sx::check(want, "a row outside the time range was written"),
                _ => sx::fail("a row was written more than once"),
            }
        }
    }
    if out.len() > 1 && label(&out[0]).0 != label(&out[1]).0 {
        sx::cover("interleaved");
    }
    let last = log.borrow().last().map(|e| matches!(e, Ev::Flush(0))).unwrap_or(false);
    sx::check(last, "the sink was not flushed after its last row");
}

fn counts(n: usize, max: usize, min: usize) -> Vec<usize> {
    (0..n).map(|i| min + sx::choose("rows", i, max + 1 - min)).collect()
}

/// n inputs, each with a chain of its own
fn pairs(n: usize, max: usize) {
    let range = any_range();
    pairs_rows((0..n).map(|i| { let c = sx::choose("rows", i, max + 1); sorted_rows(i, c) }).collect(), range);
}
fn pairs_rows(inputs: Vec<(Vec<u64>, Vec<Row>)>, range: TimestampRange) {
    let n = inputs.len();
    let log = new_log();
    let mut all = Vec::new();
    let mut sources: Vec<Box<dyn Source>> = Vec::new();
    let mut chains = Vec::new();
    for (i, (ts, rows)) in inputs.into_iter().enumerate() {
        all.push(ts);
        let h = Header::new(vec![format!("src{}", i), "k".to_string()], vec![FieldType::Int, FieldType::Int]);
        sources.push(Box::new(VecSource::new(h, rows)));
        chains.push(chain(vec![Rec::node(i, &log)]));
    }
    let r = run(sources, chains, range);
    sx::check(r.is_ok(), "running valid inputs failed");
    let mut total = 0;
    for i in 0..n {
        let heads: Vec<String> = log.borrow().iter().filter_map(|e| match e { Ev::Header(c, h) if *c == i => Some(h.field_names()[0].clone()), _ => None }).collect();
        sx::check(heads.len() == 1 && heads[0] == format!("src{}", i), "a chain was not set up once with the header of its own input");
        let mut next = 0;
        for r in rows_at(&log, i) {
            let (s, k) = label(&r);
            sx::check(s == i, "a row reached the chain of another input");
            if s != i { return; }
            sx::check(k >= next, "rows of one input reordered or repeated");
            for j in next..k {
                sx::check(!in_range(all[i][j], &range), "a row in range did not reach its chain");
            }
            sx::check(in_range(all[i][k], &range), "a row out of range reached its chain");
            sx::check(r.timestamp == all[i][k], "a row's timestamp changed");
            next = k + 1;
            total += 1;
        }
        for j in next..all[i].len() {
            sx::check(!in_range(all[i][j], &range), "a row in range did not reach its chain");
        }
        sx::observe("rows", next as u64);
    }
    if total > n { sx::cover("rows on several chains"); }
}

/// n inputs of up to `rows` rows, all times given but one, which is any
fn mostly(n: usize, rows: usize, free: bool) -> Vec<(Vec<u64>, Vec<Row>)> {
    sx::allow(sx::FORK);
    let (who, which) = if free { (sx::choose("input", 0, n), sx::choose("row", 0, rows)) } else { (n, 0) };
    // some inputs end early, some are empty
    let short = sx::choose("short", 0, 3);
    let step = [0, 3, 1_000_000_000][sx::choose("apart", 0, 3)];
    (0..n).map(|i| {
        let c = match short { 0 => rows, 1 => (i * 7 + 1) % (rows + 1), _ => if i % 3 == 1 { 0 } else { rows } };
        let mut ts: Vec<u64> = (0..c).map(|k| 1_000_000_000_000 + ((i * 5) % 7) as u64 * step + k as u64 * step * 2).collect();
        if i == who && which < c {
            let t = sx::u64v("t", 0);
            if which > 0 { sx::assume(ts[which - 1] <= t); }
            if which + 1 < c { sx::assume(t <= ts[which + 1]); }
            ts[which] = t;
        }
        let r = ts.iter().enumerate().map(|(k, t)| lrow(*t, i, k)).collect();
        (ts, r)
    }).collect()
}
/// very many rows or inputs, given times but for one row, and a range whose begin and end are any
/// near some rows
fn huge(n: usize, rows: usize) {
    sx::allow(sx::FORK);
    let base = 1_000_000_000_000u64;
    let who = [0, n - 1, n / 2][sx::choose("input", 0, if rows > 1000 { 1 } else { 3.min(n) })];
    let which = [rows - 1, 0, rows / 2][sx::choose("row", 0, 3.min(rows))];
    let t = sx::u64v("t", 0);
    sx::assume(sx::and(t > 100, t < 1 << 60));
    let mut all: Vec<Vec<u64>> = (0..n).map(|i| (0..rows).map(|k| base + (k * n + i) as u64 * 4).collect()).collect();
    // near its place, among the rows before and after it in the other inputs
    sx::assume(sx::and(t + 6 >= all[who][which], t <= all[who][which] + 6));
    if which > 0 { sx::assume(all[who][which - 1] <= t); }
    if which + 1 < rows { sx::assume(t <= all[who][which + 1]); }
    all[who][which] = t;
    // the range: everything, or from near the n-th row to near the n-th last
    let range = if sx::flag("ranged", 0) {
        let near = 10 * n.min(rows) as u64;
        let last = base + (rows * n) as u64 * 4;
        let (b, e) = if rows > 1000 { (base + near, last - near) } else { (sx::u64v("begin", 0), sx::u64v("end", 0)) };
        sx::assume(sx::and(b >= base + near, b <= base + near + 5));
        sx::assume(sx::and(e >= last - near - 5, e <= last - near));
        TimestampRange { begin: Some(b), end: Some(e) }
    } else {
        TIMESTAMP_RANGE_ALL
    };
    let log = new_log();
    let sources = all.iter().enumerate().map(|(i, ts)| boxed_source(ts.iter().enumerate().map(|(k, t)| lrow(*t, i, k)).collect())).collect();
    sx::check(run(sources, merged(n, &log), range).is_ok(), "merging valid inputs failed");
    let out = rows_at(&log, 0);
    let mut next = vec![0usize; n];
    for (i, r) in out.iter().enumerate() {
        sx::check(i == 0 || out[i - 1].timestamp <= r.timestamp, "output not in time order");
        let (s, k) = label(r);
        sx::check(k >= next[s], "rows of one input reordered or repeated");
        sx::check(r.timestamp == all[s][k], "a row's timestamp changed on the way");
        sx::check(in_range(all[s][k], &range), "a row outside the time range was written");
        for j in next[s]..k {
            sx::check(!in_range(all[s][j], &range), "a row inside the time range was dropped");
        }
        next[s] = k + 1;
    }
    for s in 0..n {
        for j in next[s]..rows {
            sx::check(!in_range(all[s][j], &range), "a row inside the time range was dropped");
        }
    }
    sx::observe("rows", out.len() as u64);
    sx::cover("interleaved");
}
harness! {
    h_merge_huge { let (n, r) = [(1, 257), (2, 257), (3, 100), (33, 3), (129, 2)][sx::choose("size", 0, 5)]; huge(n, r); }
    h_merge_many_rows { let (n, r) = [(1, 65600), (2, 32900)][sx::choose("size", 0, 2)]; huge(n, r); }
    h_merge_many { let n = [5, 8, 9, 17][sx::choose("n", 0, 4)]; merge_rows(mostly(n, 2, true), TIMESTAMP_RANGE_ALL); }
    h_merge_long { let n = 1 + sx::choose("n", 0, 2); merge_rows(mostly(n, [9, 17, 33][sx::choose("rows", 0, 3)], true), TIMESTAMP_RANGE_ALL); }
    h_range_many { let n = [5, 9][sx::choose("n", 0, 2)]; let r = any_range(); merge_rows(mostly(n, 2, false), r); }
    h_range_long { let n = 1 + sx::choose("n", 0, 2); let r = any_range(); merge_rows(mostly(n, 12, false), r); }
    h_pair_many { let n = [5, 8, 9, 17][sx::choose("n", 0, 4)]; pairs_rows(mostly(n, 3, true), TIMESTAMP_RANGE_ALL); }
    h_pair_2 { pairs(2, 2); }
    h_pair_3 { pairs(3, 1); }
    h_pair_4 { pairs(4, 1); }
    h_merge_2x3 { merge(&[3, 3], false); }
    h_merge_3x2 { merge(&[2, 2, 2], false); }
    h_merge_2x5 { merge(&[5, 5], false); }
    h_merge_3x3 { merge(&[3, 3, 3], false); }
    h_merge_4x2 { merge(&[2, 2, 2, 2], false); }
    h_merge_5x1 { merge(&[1, 1, 1, 1, 1], false); }
    h_range_2_deep { let c = counts(2, 4, 0); merge(&c, true); }
    h_range_3_deep { let c = counts(3, 2, 0); merge(&c, true); }
    h_merge_any2 { let c = counts(2, 3, 1); merge(&c, false); }
    h_merge_empty { let n = 1 + sx::choose("n", 0, 3); let c = counts(n, 2, 0); merge(&c, false); }
    h_range_1 { let c = counts(1, 4, 0); merge(&c, true); }
    h_range_2 { let c = counts(2, 2, 0); merge(&c, true); }
    h_range_3 { let c = counts(3, 1, 0); merge(&c, true); }
}
