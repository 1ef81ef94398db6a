//! C07: the disk-backed map compared with an ordinary ordered map, for every operation history up to a depth.
use crate::run::*;
use crate::{must, must_eq};
use graphannis_core::serializer::KeySerializer;
use graphannis_core::util::disk_collections::{DiskMap, EvictionStrategy};
use serde::{Serialize, de::DeserializeOwned};
use serde_json::json;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::ops::Bound;
use transient_btree_index::BtreeConfig;

pub trait Key: 'static + KeySerializer + Serialize + DeserializeOwned + Clone + Send + Sync + Ord + Debug {}
impl<T: 'static + KeySerializer + Serialize + DeserializeOwned + Clone + Send + Sync + Ord + Debug> Key for T {}

fn mk<K: Key>(file: Option<&std::path::Path>, limit: usize) -> Result<DiskMap<K, String>, String> {
    es(DiskMap::new(file, EvictionStrategy::MaximumItems(limit), 1 << 20, BtreeConfig::default()), "DiskMap::new")
}

pub fn verify<K: Key>(m: &DiskMap<K, String>, r: &BTreeMap<K, String>, probe: &[K]) -> Result<(), String> {
    for k in probe {
        must_eq!(es(m.get(k), "get")?.map(|v| v.into_owned()), r.get(k).cloned(), "get({k:?})");
        must_eq!(es(m.contains_key(k), "contains_key")?, r.contains_key(k), "contains_key({k:?})");
    }
    must_eq!(es(m.is_empty(), "is_empty")?, r.is_empty(), "is_empty");
    let got: Result<Vec<(K, String)>, _> = es(m.iter(), "iter")?.take(r.len() + 5).collect();
    let exp: Vec<(K, String)> = r.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    must_eq!(es(got, "iter")?, exp, "iter");
    let mut bounds: Vec<Bound<K>> = vec![Bound::Unbounded];
    for k in probe {
        bounds.push(Bound::Included(k.clone()));
        bounds.push(Bound::Excluded(k.clone()));
    }
    for lo in &bounds {
        for hi in &bounds {
            let bad = match (lo, hi) {
                (Bound::Excluded(a), Bound::Excluded(b)) => a >= b,
                (Bound::Included(a) | Bound::Excluded(a), Bound::Included(b) | Bound::Excluded(b)) => a > b,
                _ => false,
            };
            if bad {
                continue;
            }
            let exp: Vec<(K, String)> = r.range((lo.clone(), hi.clone())).map(|(k, v)| (k.clone(), v.clone())).collect();
            let got: Result<Vec<(K, String)>, _> = m.range((lo.clone(), hi.clone())).take(r.len() + 5).collect();
            must_eq!(es(got, "range")?, exp, "range({lo:?},{hi:?})");
        }
    }
    Ok(())
}

fn history<K: Key>(run: &Run, ops: &[u8], keys: &[K], probe: &[K], limit: usize) -> Result<(), String> {
    let dir = tmpdir("dm");
    let mut m: DiskMap<K, String> = if limit % 2 == 0 {
        mk(None, limit)?
    } else {
        DiskMap::new_temporary(EvictionStrategy::MaximumItems(limit), 1 << 20, BtreeConfig::default())
    };
    let mut r: BTreeMap<K, String> = BTreeMap::new();
    let nk = keys.len();
    for (i, op) in ops.iter().enumerate() {
        let op = *op as usize;
        if op < nk {
            let v = format!("v{i}{}", "x".repeat(i));
            es(m.insert(keys[op].clone(), v.clone()), "insert")?;
            r.insert(keys[op].clone(), v);
        } else if op < 2 * nk {
            let k = &keys[op - nk];
            let got = es(m.remove(k), "remove")?;
            let exp = r.remove(k);
            must_eq!(got, exp, "result of remove({k:?}) as operation {i}");
        } else if op == 2 * nk {
            m.clear();
            r.clear();
        } else if op == 2 * nk + 1 {
            es(m.compact(), "compact")?;
        } else {
            let p = dir.path().join(format!("sub{i}/map.bin"));
            es(m.write_to(&p), "write_to")?;
            m = mk(Some(&p), limit)?;
        }
    }
    run.trans(ops.len() as u64);
    run.state(&(limit, format!("{r:?}")));
    run.outcome(&format!("{r:?}"));
    verify(&m, &r, probe)?;
    Ok(())
}

fn sequences(n_ops: usize, depth: usize) -> impl Iterator<Item = Vec<u8>> + Send {
    (1..=depth).flat_map(move |d| {
        let total = (n_ops as u64).pow(d as u32);
        (0..total).map(move |mut x| {
            let mut v = vec![0u8; d];
            for i in (0..d).rev() {
                v[i] = (x % n_ops as u64) as u8;
                x /= n_ops as u64;
            }
            v
        })
    })
}

fn explore<K: Key>(run: &Run, name: &str, keys: Vec<K>, probe: Vec<K>, depth: usize, limits: &[usize]) {
    let n_ops = 2 * keys.len() + 3;
    for &limit in limits {
        run.par_n(8, 256, sequences(n_ops, depth), |ops| {
            // clearing as last operation or twice in a row shows nothing new; everything else is executed
            run.case(
                || format!("hist/{name}/limit{limit}/{}", ops.iter().map(|o| o.to_string()).collect::<Vec<_>>().join(".")),
                || history(run, &ops, &keys, &probe, limit),
            );
        });
    }
}

/// Larger maps, so that the disk tables consist of several blocks and nodes
fn large(run: &Run) {
    let sizes: Vec<u64> = run.q(vec![0, 1, 2, 15, 16, 17, 255, 256, 257, 600, 1100], vec![0, 1, 2, 15, 16, 17, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513, 600, 1023, 1024, 1100, 5000]);
    let mut work = vec![];
    for n in sizes {
        for limit in [7usize, 100, 1000, 1000000] {
            for stage in 0..4u8 {
                for (over, del) in [(0u64, 0u64), (3, 0), (0, 2), (2, 3), (1, 1)] {
                    for order in 0..3u8 {
                        work.push((n, limit, stage, over, del, order));
                    }
                }
            }
        }
    }
    run.par_n(8, 4, work.into_iter(), |(n, limit, stage, over, del, order)| {
        run.case(
            || format!("large/{n}/{limit}/{stage}/{over}/{del}/{order}"),
            || {
                let dir = tmpdir("dl");
                let mut m: DiskMap<u64, String> = mk(None, limit)?;
                let mut r = BTreeMap::new();
                let ids: Vec<u64> = match order {
                    0 => (0..n).collect(),
                    1 => (0..n).rev().collect(),
                    _ => (0..n).map(|i| if n % 7 == 0 { i } else { (i * 7) % n }).collect(),
                };
                let key = |i: u64| i * 3 + 1;
                for &i in &ids {
                    let v = format!("first {i}");
                    es(m.insert(key(i), v.clone()), "insert")?;
                    r.insert(key(i), v);
                }
                if stage & 1 != 0 {
                    let p = dir.path().join("a");
                    es(m.write_to(&p), "write_to")?;
                    m = mk(Some(&p), limit)?;
                }
                if over > 0 {
                    for &i in ids.iter().filter(|i| *i % over == 0) {
                        let v = format!("second {i}");
                        es(m.insert(key(i), v.clone()), "insert")?;
                        r.insert(key(i), v);
                    }
                }
                if del > 0 {
                    for &i in ids.iter().filter(|i| *i % del == 0) {
                        must_eq!(es(m.remove(&key(i)), "remove")?, r.remove(&key(i)), "remove {i}");
                    }
                }
                if stage & 2 != 0 {
                    es(m.compact(), "compact")?;
                }
                run.trans(n);
                run.state(&(n, limit, stage, over, del, order));
                run.outcome(&format!("{r:?}"));
                let mut probe: Vec<u64> = vec![0, u64::MAX];
                for i in [0, 1, n / 3, n / 2, n.saturating_sub(2), n.saturating_sub(1), n] {
                    probe.push(key(i));
                    probe.push(key(i) + 1);
                }
                probe.sort();
                probe.dedup();
                verify(&m, &r, &probe)?;
                for k in 0..=(3 * n + 2) {
                    must_eq!(es(m.get(&k), "get")?.map(|v| v.into_owned()), r.get(&k).cloned(), "get({k})");
                    must_eq!(es(m.contains_key(&k), "contains_key")?, r.contains_key(&k), "contains_key({k})");
                }
                // everything still there after the next round on disk
                let p = dir.path().join("b");
                es(m.write_to(&p), "write_to")?;
                let m: DiskMap<u64, String> = mk(Some(&p), limit)?;
                verify(&m, &r, &probe)?;
                must!(r.len() as u64 <= n, "internal");
                Ok(())
            },
        );
    });
}

pub fn check(run: &Run) {
    *run.rule.lock().unwrap() = "every sequence of insert/remove (3 keys), clear, compact, write+reopen up to the depth, for each eviction limit, on the real map; after each sequence all lookups, iteration and all pairs of range bounds are compared with std BTreeMap; distinct = distinct map content and eviction limit".into();
    run.assume("the crates transient-btree-index and sstable are part of what is executed");
    let d = run.q(5, 6);
    explore::<u64>(run, "u64", vec![1, 256, 7], vec![0, 1, 7, 8, 256, u64::MAX], d, &[1, 2, 3, 100]);
    let s = |x: &str| x.to_string();
    explore::<String>(run, "string", vec![s("b"), s("a"), s("aü")], vec![s("\0"), s("a"), s("ab"), s("aü"), s("ü")], run.q(4, 5), &[1, 2, 100]);
    explore::<Vec<u8>>(run, "bytes", vec![vec![0], vec![0, 255], vec![255]], vec![vec![], vec![0], vec![0, 0], vec![0, 255], vec![255], vec![255, 255]], run.q(4, 5), &[2, 3]);
    large(run);
    run.note("bounds", json!({"depth_u64": d, "keys": 3, "eviction_limits": [1, 2, 3, 100], "operations": 9}));
}
